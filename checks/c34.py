"""C34: AXI slave registers and user slaves built from the request and data methods."""
from vlib.harness import Registry
from vlib import term as t
from vlib.term import const, ite
from checks.axi import build
from checks.slv import Bus, pick, K

R = Registry('C34', 'symbolic execution of the generated slave hardware and threads with symbolic requests, data and handshake timing; z3 decides every cycle',
             ['veriloggen/thread/axis.py', 'veriloggen/types/axi.py', 'veriloggen/seq/seq.py', 'veriloggen/fsm/fsm.py', 'veriloggen/thread/thread.py', 'veriloggen/thread/compiler.py'],
             assumptions=['bus writes enable all bytes (the registers have no byte enables)', 'bursts stay inside the register file; the length of the register file is a power of two',
                          'the bus master keeps valid and payload until ready and offers a request with the write data of the same transaction in any order'],
             explanation='two or three requests of one to three words per direction; handshakes symbolic in windows of up to 12 cycles; word addresses and data symbolic')

Q = ''.join("m.Output('q%d', %%(dw)d).assign(sl.register[%d])\n" % (i, i) for i in range(4))


def mk(lite, dw=32, n=4, aw=32, extra='', opts=''):
    cls = 'AXISLiteRegister' if lite else 'AXISRegister'
    return ("sl = vthread.%s(m, 'ax', CLK, RST, %d, %d, length=%d%s)\n" % (cls, dw, aw, n, opts)
            + ''.join("m.Output('q%d', %d).assign(sl.register[%d])\n" % (i, dw, i) for i in range(n)) + extra)


def slave(src, writes, reads, cycles, win, n=4, dw=32, lite=False, ids=0, args=None, outs=None, pre=None, each=None, final=None, hist=True, regs=True, busy=0):
    """writes(c, a), reads(c, a) -> lists for Bus; each(c, h, b, a, st, ev, s), final(c, h, b, a, st)"""
    def sc(c):
        info = c.built('info', dict)
        h = c.hw(c.verilog('d', lambda: build(src, {}, args, outs, info)), 'dut')
        a = {}
        for k, w in (args or {}).items():
            w = w[0] if isinstance(w, tuple) else w
            a[k] = c.fresh(k, w)
            h.set(k, a[k])
        for q in (pre(c, a) if pre else ()):
            c.assume(q)
        W, Rd = writes(c, a), reads(c, a)
        b = Bus(c, h, 'ax', W, Rd, win, lite=lite, dw=dw, ids=ids)
        b.idle()
        h.reset()
        sh = (dw // 8).bit_length() - 1
        st = {}
        H = []       # register values and events of every cycle
        qs = lambda: [h.get('q%d' % i) for i in range(n)]
        idx = lambda ad: t.extract(ad, sh + n.bit_length() - 2, sh) if n > 1 else const(0, 1)
        end = max([0] + [max(x) + 1 for x in (win or {}).values() if len(x)])
        for s in range(cycles):
            b.drive()
            if each is not None:
                each(c, h, b, a, st, s)
            ev = b.look()
            now = qs() if regs else None
            if st.get('want'):
                for i in range(n):
                    c.check('register %d in cycle %d' % (i, s), now[i].eq(st['want'][i]))
            if regs:
                H = [now] + H[:2]
                if hist and Rd:
                    rv = t.and_(h.get('ax_rvalid').nz(), t.not_(st.get('rhold', t.false())))
                    st['rhold'] = t.and_(h.get('ax_rvalid').nz(), t.not_(h.get('ax_rready').nz()))
                    r, rb = ev['state'][5:]
                    i = pick([idx(q['addr']).zx(K(0).w) for q in Rd], r, K(0).w) + rb
                    if H[1:]:
                        c.check('word offered in cycle %d is the value of the register' % s, t.implies(rv, t.disj([pick(x, i, dw).eq(h.get('ax_rdata')) for x in H[1:]])))
            if regs == 'bus':
                # writes of this cycle
                aw, wn, wb = ev['state'][:3]
                new = list(now)
                if W:
                    base = pick([idx(q['addr']).zx(K(0).w) for q in W], wn, K(0).w) + wb
                    d = pick_data(W, wn, wb, dw)
                    for i in range(n):
                        new[i] = ite(t.and_(ev['w'], base.eq(i)), d, new[i])
                st['want'] = new
            dn = b.done()
            h.step()
            if dn.op == 'const' and dn.val and s >= end and not busy:
                break
        b.verdict()
        if final is not None:
            final(c, h, b, a, st)
    return sc


def pick_data(W, wn, wb, dw):
    d = const(0, dw)
    for i, q in enumerate(W):
        d = ite(wn.eq(i), pick(q['data'], wb, dw), d)
    return d


def addrs(c, name, n, words, dw=32, high=0x40000000, aw=32):
    """a word-aligned address inside the register file, words long"""
    sh = (dw // 8).bit_length() - 1
    i = c.fresh(name, max(n.bit_length() - 1, 1))
    c.assume(i.ule(n - words))
    return t.shl(t.zresize(i, aw), const(sh, aw)) + (high & ((1 << aw) - 1))


def wl(lens, n=4, dw=32, ids=0, **kw):
    def f(c, a):
        return [dict({'addr': addrs(c, 'wa%d' % i, n, l, dw), 'data': [c.fresh('w%d_%d' % (i, k), dw) for k in range(l)],
                      'id': c.fresh('wi%d' % i, ids) if ids else None}, **{k: v[i] for k, v in kw.items() if v[i]}) for i, l in enumerate(lens)]
    return f


def rl(lens, n=4, dw=32, ids=0, **kw):
    def f(c, a):
        return [dict({'addr': addrs(c, 'ra%d' % i, n, l, dw), 'n': l, 'id': c.fresh('ri%d' % i, ids) if ids else None},
                     **{k: v[i] for k, v in kw.items() if v[i]}) for i, l in enumerate(lens)]
    return f


def after(nb=0, nr=0):
    return lambda b: t.and_(b.b.uge(nb), b.r.uge(nr))


NONE = lambda c, a: []
A12 = {'aw': range(0, 8), 'w': range(0, 10), 'b': range(0, 12), 'ar': range(0, 8), 'r': range(0, 12)}


def win(lo, hi, chs='aw w b ar r'):
    return dict((ch, range(lo, hi)) for ch in chs.split())


for lite in (0, 1):
    L = 'lite_' if lite else ''
    one = lambda *l: [1] * len(l) if lite else list(l)
    D = dict(dw=8)
    kw = dict(lite=bool(lite), regs='bus')
    k8 = dict(kw, dw=8)
    m8 = mk(lite, 8)
    R.add(L + 'write2', slave(m8, wl(one(1, 2), **D), NONE, 40, win(0, 12), **k8))
    R.add(L + 'write3', slave(m8, wl(one(2, 1, 3), **D), NONE, 44, win(2, 14), **k8))
    R.add(L + 'read2_after_write', slave(m8, wl(one(3), **D), rl(one(2, 2), after=[after(1), None], **D), 40, dict(win(0, 4, 'aw w b'), **win(4, 16, 'ar r')), **k8))
    R.add(L + 'both', slave(m8, wl(one(2, 1), **D), rl(one(1, 2), **D), 44, win(0, 8), **k8))
    R.add(L + 'both_late', slave(m8, wl(one(1, 1), **D), rl(one(1, 1), **D), 44, win(4, 12), **k8))
    R.add(L + 'wrw', slave(m8, wl(one(1, 2), after=[None, after(1, 1)], **D), rl(one(1, 2), after=[after(1), after(2, 1)], **D), 60, win(0, 10), **k8))
    R.add(L + 'reads', slave(m8, NONE, rl(one(1, 2, 1), **D), 40, {'ar': range(0, 12), 'r': range(0, 14)}, **k8))
    R.add(L + 'long', slave(mk(lite, 8, 8), wl(one(5), 8, 8), rl(one(6), 8, 8, after=[after(1)]), 50, dict(win(0, 12, 'w b'), **win(14, 24, 'r')), n=8, **k8))
    R.add(L + 'dw32', slave(mk(lite, 32), wl(one(2), dw=32), rl(one(2), dw=32, after=[after(1)]), 40, dict(win(0, 4, 'aw w'), **win(6, 12, 'r')), dw=32, **kw))
    R.add(L + 'dw64', slave(mk(lite, 64), wl(one(1), dw=64), rl(one(2), dw=64, after=[after(1)]), 40, dict(win(0, 4, 'aw w'), **win(6, 10, 'r')), dw=64, **kw))
    R.add(L + 'len8_dw16', slave(mk(lite, 16, 8), wl(one(2), 8, 16), rl(one(3), 8, 16), 44, win(2, 8), n=8, dw=16, **kw))
    R.add(L + 'len2', slave(mk(lite, 8, 2), wl(one(2, 1), 2, **D), rl(one(2), 2, after=[after(1)], **D), 44, win(0, 8), n=2, **k8))
    R.add(L + 'fsm_as_module', slave(mk(lite, 8, opts=', fsm_as_module=True'), wl(one(2), **D), rl(one(2), **D), 34, win(0, 8), **k8))
    if not lite:
        I = dict(ids=3, dw=8)
        o = ', waddr_id_width=3, wdata_id_width=0, wresp_id_width=3, raddr_id_width=3, rdata_id_width=3'
        R.add('id_write', slave(mk(0, 8, opts=o), wl([1, 2], **I), NONE, 34, win(0, 10), ids=3, **k8))
        R.add('id_read', slave(mk(0, 8, opts=o), NONE, rl([1, 2], **I), 34, win(0, 10), ids=3, **k8))


# ---- threads ---------------------------------------------------------------------------------------------------------
def th(body):
    return 'def f():\n' + ''.join('    %s\n' % l for l in body.strip('\n').split('\n')) + "th = vthread.Thread(m, 'th', CLK, RST, f)\nth.start()\n"


GO = 'while go == 0:\n    pass\n'


def go(lo, hi, name='go'):
    """a stall input: symbolic in the window, 1 afterwards, 0 before"""
    def each(c, h, b, a, st, s):
        h.set(name, 0 if s < lo else c.fresh('%s%d' % (name, s), 1) if s < hi else 1)
    return each


def A(i, dw=8):
    return const(i * (dw // 8) + 0x40000000, 32)


def opair(*nb):
    """after() list: request k of a channel waits for (nb, nr)"""
    return [after(*x) if x else None for x in nb]


def regw(l, aft):
    """[(register, argument or int)] -> writes"""
    return lambda c, a: [dict({'addr': A(i), 'data': [a[v] if isinstance(v, str) else const(v, 8)]}, **({'after': f} if f else {})) for (i, v), f in zip(l, aft)]


def regr(l, aft, until=None):
    return lambda c, a: [dict({'addr': A(i), 'n': 1}, **dict(({'after': f} if f else {}), **({'until': until[k]} if until and k in until else {})))
                         for k, (i, f) in enumerate(zip(l, aft))]


def got(*exp):
    def f(c, h, b, a, st):
        for k, e in enumerate(exp):
            if e is not None:
                c.check('word of read %d' % k, b.got[k][0].eq(e(a) if callable(e) else e))
    return f


def both(*fs):
    def f(c, h, b, a, st):
        for x in fs:
            x(c, h, b, a, st)
    return f


def outv(o, fn):
    return lambda c, h, b, a, st: c.check(o, h.get(o).eq(fn(a)))


for lite in (0, 1):
    L = 'lite_' if lite else ''
    k8 = dict(lite=bool(lite), dw=8, regs=False, hist=False)

    def S(body, n=4, ins='go', opts=''):
        return mk(lite, 8, n, opts=opts) + ''.join("%s = m.Input('%s')\n" % (i, i) for i in ins.split()) + th(body)
    P3 = {'x': 8, 'y': 8, 'z': 8}
    N1 = {'n0': 8, 'n1': 8}
    srv = 'while True:\n    sl.wait_flag(0, 1, resetvalue=0)\n    %s\n    sl.write(2, sl.read(1) + sl.read(2))\n    sl.write_flag(3, 1, resetvalue=%d)'
    # one request served: parameters, start flag, polled completion flag, result
    for nm, w in (('', win(0, 6)), ('_mid', win(6, 14, 'w b ar r')), ('_late', win(12, 22, 'ar r'))):
        R.add(L + 'serve' + nm, slave(S(srv % (GO.replace('\n', '\n    ').rstrip(), 0)), regw([(1, 'x'), (2, 'y'), (0, 1)], opair((0,), (1,), (2,))),
                                      regr([3, 2, 3, 0, 1], opair((3,), (3, 1), (3, 2), (3, 3), (3, 4)), until={0: 1}), 110, w, args=P3, each=go(8, 14),
                                      final=got(1, lambda a: a['x'] + a['y'], 0, 0, lambda a: a['x']), **k8))
    R.add(L + 'serve2', slave(S(srv % ('pass', 0)), regw([(1, 'x'), (2, 'y'), (0, 1), (1, 'z'), (0, 1)], opair((0,), (1,), (2,), (3, 2), (4, 2))),
                              regr([3, 2, 3, 2, 3], opair((3,), (3, 1), (5, 2), (5, 3), (5, 4)), until={0: 1, 2: 1}), 150, win(10, 18, 'w ar r'), args=P3, each=None or go(0, 0),
                              final=got(1, lambda a: a['x'] + a['y'], 1, lambda a: a['x'] + a['y'] + a['z'], 0), **k8))
    # a thread writes a register with a flag: read once, then the reset value
    R.add(L + 'flag', slave(S(GO + 'sl.write_flag(p, x, y)\nn0.value = 1'), NONE, lambda c, a: [
        {'addr': A(0) + t.zresize(a['p'], 32), 'n': 1, 'after': lambda b: b.h.get('n0').eq(1)}, {'addr': A(0) + t.zresize(a['q'], 32), 'n': 1, 'after': after(0, 1)},
        {'addr': A(0) + t.zresize(a['p'], 32), 'n': 1, 'after': after(0, 2)}], 70, win(6, 20), args={'x': 8, 'y': 8, 'p': 2, 'q': 2}, outs=N1, each=go(0, 4),
        final=got(lambda a: a['x'], lambda a: ite(a['p'].eq(a['q']), a['y'], const(0, 8)), lambda a: a['y']), **k8))
    # ... and a bus read at any time returns either value, the flag is consumed exactly once
    R.add(L + 'flag_any', slave(S(GO + 'sl.write_flag(1, x, y)'), NONE, regr([1, 1, 1], opair((), (0, 1), (0, 2))), 60, win(0, 10, 'ar r'), args={'x': 8, 'y': 8}, outs=N1,
                                each=go(0, 8), pre=lambda c, a: [a['x'].nz(), a['x'].ne(a['y']), a['y'].nz()],
                                final=lambda c, h, b, a, st: c.check('order of the values', t.or_(*[t.conj([b.got[k][0].eq(v) for k, v in enumerate(q)]) for q in (
                                    (a['x'], a['y'], a['y']), (const(0, 8), a['x'], a['y']), (const(0, 8), const(0, 8), a['x']), (const(0, 8), const(0, 8), const(0, 8)))])), **k8))
    # plain write clears the flag
    R.add(L + 'write_after_flag', slave(S(GO + 'sl.write_flag(2, x, y)\nsl.write(2, z)\nn0.value = 1'), NONE, lambda c, a: [
        {'addr': A(2), 'n': 1, 'after': lambda b: b.h.get('n0').eq(1)}, {'addr': A(2), 'n': 1, 'after': after(0, 1)}], 50, win(6, 16), args=P3, outs=N1, each=go(0, 4),
        final=got(lambda a: a['z'], lambda a: a['z']), **k8))
    R.add(L + 'thread_write_read', slave(S('sl.write(p, x)\nsl.write(q, y)\nn0.value = sl.read(p)\nn1.value = sl.read(1)'), NONE, regr([0, 1, 2, 3], opair((), (0, 1), (0, 2), (0, 3))),
                                         60, win(0, 0), args={'x': 8, 'y': 8, 'p': 2, 'q': 2}, outs=N1, each=go(0, 0),
                                         final=both(outv('n0', lambda a: ite(a['p'].eq(a['q']), a['y'], a['x'])),
                                                    outv('n1', lambda a: ite(a['q'].eq(1), a['y'], ite(a['p'].eq(1), a['x'], const(0, 8))))), **k8))
    R.add(L + 'thread_write_then_bus', slave(S('sl.write(p, x)\nsl.write(q, y)\nn0.value = 1'), NONE, lambda c, a: [
        {'addr': A(i), 'n': 1, 'after': (lambda b: b.h.get('n0').eq(1)) if not i else after(0, i)} for i in range(4)], 60, win(6, 14), args={'x': 8, 'y': 8, 'p': 2, 'q': 2}, outs=N1, each=go(0, 0),
        final=got(*[(lambda a, i=i: ite(a['q'].eq(i), a['y'], ite(a['p'].eq(i), a['x'], const(0, 8)))) for i in range(4)]), **k8))
    # waits
    for nm, call, v1, v2 in (('wait', 'sl.wait(1, 5)', 'u', 5), ('wait_addr', 'sl.wait(p, 5)', 'u', 5), ('wait_not', 'sl.wait(1, 0, polarity=False)', 0, 'u'),
                             ('wait_flag_keep', 'sl.wait_flag(p, 5, 9)', 'u', 5), ('wait_flag_not', 'sl.wait_flag(1, 0, 7, polarity=False)', 0, 'u')):
        kb = dict(k8, busy=1)
        fl = {'wait_flag_keep': 9, 'wait_flag_not': 7}.get(nm)
        R.add(L + nm, slave(S(GO + call + '\nn0.value = 1'), regw([(1, v1), (2, 'x'), (1, v2)], opair((0,), (1,), (2,))), regr([1, 2], opair((3, 0), (3, 1))), 60,
                            win(0, 12), args={'x': 8, 'u': 8, 'p': 2}, outs=dict(N1, n1=8), pre=lambda c, a: [a['u'].ne(5), a['u'].nz(), a['p'].eq(1)],
                            each=go(0, 6),
                            final=both(outv('n0', lambda a: const(1, 8)), got(lambda a, v2=v2, fl=fl: const(fl, 8) if fl is not None else (a['u'] if v2 == 'u' else const(v2, 8)), lambda a: a['x'])), **kb))
        # never released without the value
        R.add(L + nm + '_stuck', slave(S(GO + call + '\nn0.value = 1'), regw([(1, v1 if v1 == 'u' else 0), (2, 'x'), (3, 5)], opair((0,), (1,), (2,))), regr([1], opair((3, 0))), 50,
                                       win(0, 10), args={'x': 8, 'u': 8, 'p': 2}, outs=dict(N1, n1=8), pre=lambda c, a: [a['u'].ne(5), a['u'].nz(), a['p'].eq(1)],
                                       each=go(0, 6), final=both(outv('n0', lambda a: const(0, 8)), got(lambda a, v1=v1: a['u'] if v1 == 'u' else const(0, 8))), **kb))
    # mutual exclusion of two threads on the register file
    R.add(L + 'locked', slave(mk(lite, 8) + "go = m.Input('go')\n" + '''
def f():
    while go == 0:
        pass
    sl.lock()
    c = sl.read(0)
    sl.write(1, x)
    sl.write(0, c + sl.read(1))
    sl.unlock()
    n0.value = 1
def g():
    sl.lock()
    c = sl.read(0)
    sl.write(1, y)
    sl.write(0, c + sl.read(1))
    sl.unlock()
    n1.value = 1
th = vthread.Thread(m, 'th', CLK, RST, f)
th.start()
t2 = vthread.Thread(m, 't2', CLK, RST, g)
t2.start()
''', NONE, lambda c, a: [{'addr': A(0), 'n': 1, 'after': lambda b: t.and_(b.h.get('n0').eq(1), b.h.get('n1').eq(1))}], 60, win(0, 0), args={'x': 8, 'y': 8}, outs=N1, each=go(0, 8),
        final=got(lambda a: a['x'] + a['y']), **k8))

# ---- user slaves -----------------------------------------------------------------------------------------------------
PRE = "from veriloggen import FSM\n"


def uslave(lite, kind, simul=0, opts='', dw=8):
    cls = ('AxiLiteSlave' if lite else 'AxiSlave') if kind != 'thread' else ('AXISLite' if lite else 'AXIS')
    o = "import veriloggen\nsl = %s.%s(m, 'ax', CLK, RST, %d%s)\nfsm = veriloggen.FSM(m, 'fsm', CLK, RST)\n" % ('vthread' if kind == 'thread' else 'axi', cls, dw, opts)
    return o


def rdpart(lite, wlast='rlast', fsm='fsm'):
    return ("ack = sl.push_read_data(rd%s, cond=%s)\n" % ('' if lite else ', rl <= 1', fsm) + "%s.If(ack)(rd(rd + 3)%s)\n" % (fsm, '' if lite else ', rl.dec()')
            + ("%s.If(ack).goto_next()\n" % fsm if lite else "%s.If(ack, rl <= 1).goto_next()\n" % fsm))


def wrpart(lite, fsm='fsm', acc='n0'):
    return ("data, mask, valid%s = sl.pull_write_data(cond=%s)\n" % ('' if lite else ', last', fsm)
            + "%s.If(valid)(%s((%s << 1) + (data ^ wa)), n1(n1 + mask), wa.inc())\n" % (fsm, acc, acc) + "%s.If(valid%s).goto_next()\n" % (fsm, '' if lite else ', last'))


REGS = "rd = m.Reg('rd', 8, initval=0)\nrl = m.Reg('rl', 9, initval=0)\nwa = m.Reg('wa', 8, initval=0)\n"


def user(lite, mode, opts='', kind='axi'):
    s = uslave(lite, kind, opts=opts) + REGS
    ln = '' if lite else ', length'
    if mode == 'r':
        return s + 'sl.disable_write()\naddr%s, rv = sl.pull_read_request(cond=fsm)\nfsm.If(rv)(rd(addr)%s)\nfsm.If(rv).goto_next()\n' % (ln, '' if lite else ', rl(length)') + rdpart(lite) + 'fsm.goto_init()\n'
    if mode == 'w':
        return s + 'sl.disable_read()\naddr%s, wv = sl.pull_write_request(cond=fsm)\nfsm.If(wv)(wa(addr))\nfsm.If(wv).goto_next()\n' % ln + wrpart(lite) + 'fsm.goto_init()\n'
    if mode == 'rw':
        return s + ('addr%s, rv, wv = sl.pull_request(cond=fsm)\nfsm.If(rv)(rd(addr)%s)\nfsm.If(wv)(wa(addr))\nfsm.If(wv).goto(100)\nfsm.If(rv).goto_next()\n' % (ln, '' if lite else ', rl(length)')
                    + rdpart(lite) + 'fsm.goto_init()\nfsm.set_index(100)\n' + wrpart(lite) + 'fsm.goto_init()\n')
    # separate machines
    return s + ("g = veriloggen.FSM(m, 'g', CLK, RST)\n" + 'addr%s, rv = sl.pull_read_request(cond=fsm)\nfsm.If(rv)(rd(addr)%s)\nfsm.If(rv).goto_next()\n' % (ln, '' if lite else ', rl(length)') + rdpart(lite)
                + 'fsm.goto_init()\n' + 'addr%s, wv = sl.pull_write_request(cond=g)\ng.If(wv)(wa(addr))\ng.If(wv).goto_next()\n' % ln + wrpart(lite, 'g') + 'g.goto_init()\n')


def uref(W, Rd):
    """expected accumulators and read words"""
    def f(c, h, b, a, st):
        s, k = const(0, 8), const(0, 8)
        for q in b.writes:
            x = t.extract(q['addr'], 7, 0)
            for i, d in enumerate(q['data']):
                s = t.shl(s, const(1, 8)) + (d ^ (x + i))
                k = k + 1
        if b.writes:
            c.check('n0', h.get('n0').eq(s))
            c.check('n1', h.get('n1').eq(k))
        for j, q in enumerate(b.reads):
            for i in range(q['n']):
                c.check('read %d word %d' % (j, i), b.got[j][i].eq(t.extract(q['addr'], 7, 0) + 3 * i))
    return f


def uw(lens, ids=0, **kw):
    return lambda c, a: [dict({'addr': t.zresize(c.fresh('wa%d' % i, 2), 32) + 16 * i, 'data': [c.fresh('d%d_%d' % (i, k), 4).zx(8) for k in range(l)],
                               'id': c.fresh('wi%d' % i, ids) if ids else None}, **{k: v[i] for k, v in kw.items() if v[i]}) for i, l in enumerate(lens)]


def ur(lens, ids=0, **kw):
    return lambda c, a: [dict({'addr': t.zresize(c.fresh('ra%d' % i, 8), 32), 'n': l, 'id': c.fresh('ri%d' % i, ids) if ids else None},
                              **{k: v[i] for k, v in kw.items() if v[i]}) for i, l in enumerate(lens)]


for lite in (0, 1):
    L = 'lite_' if lite else ''
    one = lambda *l: [1] * len(l) if lite else list(l)
    ku = dict(lite=bool(lite), dw=8, regs=False, hist=False, outs={'n0': (8, False), 'n1': (8, False)}, final=uref(None, None))
    for kind in ('axi', 'thread'):
        R.add(L + 'user_read_' + kind, slave(user(lite, 'r', kind=kind), NONE, ur(one(3, 1, 2)), 44, win(0, 14, 'ar r'), **ku))
        R.add(L + 'user_write_' + kind, slave(user(lite, 'w', kind=kind), uw(one(1, 3)), NONE, 40, win(0, 10), **ku))
    R.add(L + 'user_rw', slave(user(lite, 'rw'), uw(one(1, 2)), ur(one(2, 1)), 44, win(0, 8), **ku))
    R.add(L + 'user_rw_late', slave(user(lite, 'rw'), uw(one(1, 1)), ur(one(1, 1)), 44, win(4, 12), **ku))
    R.add(L + 'user_split', slave(user(lite, 'split'), uw(one(1, 2)), ur(one(2, 1)), 44, win(0, 8), **ku))
    R.add(L + 'user_split_late', slave(user(lite, 'split'), uw(one(1, 1, 1)), ur(one(1, 1, 1)), 44, win(4, 11), **ku))
    if not lite:
        o = ', waddr_id_width=2, wresp_id_width=2, raddr_id_width=2, rdata_id_width=2'
        R.add('user_rw_id', slave(user(0, 'rw', opts=o), uw([1, 2], ids=2), ur([1, 2], ids=2), 44, win(0, 7), ids=2, **ku))
        R.add('user_split_id', slave(user(0, 'split', opts=o), uw([1, 2], ids=2), ur([1, 2], ids=2), 44, win(0, 7), ids=2, **ku))

"""C40: UART transmitter, receiver and thread interface."""
from vlib.harness import Registry
from vlib import term as t
from vlib.term import const, ite
from checks.thlib import load
from checks.conc import conc

R = Registry('C40', 'symbolic execution of the generated UART hardware with symbolic bytes, request times and gaps; z3 decides every cycle',
             ['veriloggen/thread/uart.py', 'veriloggen/fsm/fsm.py', 'veriloggen/core/submodule.py', 'veriloggen/thread/thread.py', 'veriloggen/thread/compiler.py'],
             assumptions=['the bit time is clockfreq / baudrate clock cycles, rounded down, and at least three (transmitter: two)', 'a receiving thread is waiting when a byte arrives'],
             explanation='two or three bytes per run; bit times 3 to 16 cycles')


def core(kind, n, extra=0):
    def f():
        import veriloggen as vg
        import veriloggen.thread as vthread
        from veriloggen.thread import uart
        return (uart.mkUartTx if kind == 'tx' else uart.mkUartRx)(baudrate=100, clockfreq=100 * n + extra)
    return f


def bits(b):
    """levels of a frame, first to last"""
    return [const(0, 1)] + [t.extract(b, i, i) for i in range(8)] + [const(1, 1)]


def tx(n, extra=0):
    """one byte asked for at a symbolic time, another one as early as possible or later"""
    def sc(c):
        h = c.hw(c.verilog('d', core('tx', n, extra)), 'UartTx')
        h.set('din', 0)
        h.set('enable', 0)
        h.reset()
        c.check('idle line', h.get('txd').eq(1))
        c.check('idle ready', h.get('ready').eq(1))
        frames = [c.fresh('a', 8), c.fresh('b', 8)]
        late = [c.fresh('late0', 2), c.fresh('late1', 2)]
        # monitor: pos counts the cycles of the frame on the line; -1 idle
        CW = 10
        idle, cnt = t.true(), const(0, CW)
        sent = const(0, 2)      # requests made
        done = const(0, 2)      # frames finished
        waited = const(0, 4)
        pend = t.false()
        cur, nxt = const(0, 8), const(0, 8)
        for s in range(2 * (11 * n + 6) + 10):
            # the request: only while ready
            ok = t.and_(h.get('ready').nz(), sent.ult(2))
            lt = ite(sent.eq(0), late[0], late[1])
            go = t.and_(ok, waited.uge(t.zresize(lt, 4)))
            b = ite(sent.eq(0), frames[0], frames[1])
            h.set('din', ite(go, b, c.fresh('junk%d' % s, 8)) if s < 3 or s % 8 == 0 else ite(go, b, const(0x55, 8)))
            h.set('enable', ite(go, const(1, 1), const(0, 1)))
            h.step()
            waited = ite(go, const(0, 4), ite(t.and_(ok, waited.ult(15)), waited + 1, waited))
            sent = ite(go, sent + 1, sent)
            nxt = ite(go, b, nxt)
            pend = t.or_(pend, go)
            # the line
            line = h.get('txd').nz()
            start = t.and_(idle, t.not_(line))
            c.check('the line leaves idle only for a requested byte, cycle %d' % s, t.implies(start, pend))
            pos = ite(start, const(0, CW), cnt)
            cur = ite(start, nxt, cur)
            busy = t.or_(start, t.not_(idle))
            lv = bits(cur)
            want = const(1, 1)
            for i in range(9, -1, -1):
                want = ite(pos.ult(n * (i + 1)), lv[i], want)
            c.check('level of the line, cycle %d' % s, t.implies(busy, line.eq(want.nz())))
            # the stop bit may be extended: the frame is over once its last bit began; idle again after its whole time
            endf = t.and_(busy, pos.eq(10 * n - 1))
            instop = t.and_(busy, pos.uge(9 * n))
            pend = t.and_(pend, t.not_(start))
            done = ite(endf, done + 1, done)
            cnt = pos + 1
            idle = t.or_(t.and_(t.not_(busy)), endf)
            # ready again at the earliest in the stop bit
            c.check('ready during a frame, cycle %d' % s, t.implies(t.and_(busy, t.not_(instop)), h.get('ready').eq(0)))
            c.check('ready while a byte waits, cycle %d' % s, t.implies(pend, h.get('ready').eq(0)))
        c.check('both bytes were sent', done.eq(2))
    return sc


def rx(n, extra=0, gaps=3, glitch=0):
    """frames of symbolic bytes separated by symbolic gaps"""
    def sc(c):
        h = c.hw(c.verilog('d', core('rx', n, extra)), 'UartRx')
        h.set('rxd', 1)
        h.reset()
        data = [c.fresh('a', 8), c.fresh('b', 8)]
        g = [c.fresh('gap0', 2), c.fresh('gap1', 2)]
        c.assume(g[0].ule(gaps))
        c.assume(g[1].ule(gaps))
        frames = [bits(d) for d in data]
        got = const(0, 2)
        CW = 10
        if glitch:
            gl = c.fresh('glitch', 4)
            c.assume(gl.ult(glitch))
            for s in range(2 * n):
                h.set('rxd', ite(const(s, 4 + 4).ult(t.zresize(gl, 8)), const(0, 1), const(1, 1)))
                h.step()
                c.check('no byte from a short pulse, cycle %d' % s, h.get('valid').eq(0))
        for s in range(2 * 10 * n + 2 * gaps + n + 8):
            lv = const(1, 1)
            p0 = const(s, CW) - t.zresize(g[0], CW)
            p1 = p0 - 10 * n - t.zresize(g[1], CW)
            # unsigned: before the frame the position wraps to a large number
            for i in range(10):
                lv = ite(t.and_(p0.uge(i * n), p0.ult((i + 1) * n)), frames[0][i], lv)
                lv = ite(t.and_(p1.uge(i * n), p1.ult((i + 1) * n)), frames[1][i], lv)
            h.set('rxd', lv)
            h.step()
            v = h.get('valid').nz()
            c.check('byte, cycle %d' % s, t.implies(v, t.and_(got.ult(2), h.get('dout').eq(ite(got.eq(0), data[0], data[1])))))
            c.check('not before its frame, cycle %d' % s, t.implies(v, ite(got.eq(0), t.and_(p0.uge(9 * n), p0.ult(1 << (CW - 1))), t.and_(p1.uge(9 * n), p1.ult(1 << (CW - 1))))))
            got = ite(v, got + 1, got)
        c.check('both bytes arrived', got.eq(2))
    return sc


for n in (2, 3, 4, 5, 8):
    R.add('tx_%d' % n, tx(n), 'quick' if n <= 5 else 'thorough')
for n in (3, 4, 5, 7, 8):
    R.add('rx_%d' % n, rx(n), 'quick' if n <= 5 else 'thorough')
R.add('tx_fraction', tx(3, 70))
R.add('rx_fraction', rx(4, 99))
R.add('rx_glitch', rx(8, glitch=4), 'quick')
R.add('tx_16', tx(16), 'thorough')
R.add('rx_16', rx(16, glitch=8), 'thorough')

LINK = '''
from veriloggen.thread import uart
line = m.Wire('line')
tx = uart.UartTx(m, 'tx', 'tx_', CLK, RST, txd=line, baudrate=100, clockfreq=%d)
rx = uart.UartRx(m, 'rx', 'rx_', CLK, RST, rxd=line, baudrate=100, clockfreq=%d)
def sender():
    for i in range(w):
        pass
    tx.send(a)
    for i in range(w):
        pass
    tx.send(b)
    n0.value = 1
def receiver():
    n1.value = rx.recv()
    n2.value = rx.recv()
    n3.value = 1
ts = vthread.Thread(m, 'ts', CLK, RST, sender)
tr = vthread.Thread(m, 'tr', CLK, RST, receiver)
ts.start()
tr.start()
'''
for n in (3, 4, 5):
    R.add('link_%d' % n, conc(LINK % (100 * n, 100 * n), args={'a': 8, 'b': 8, 'w': 2}, outs={'n0': 32, 'n1': 32, 'n2': 32, 'n3': 32}, free=0, drain=24 * n + 40,
                              final=[('first byte', lambda h, a, st: h.get('n1').eq(t.zresize(a['a'], 32))), ('second byte', lambda h, a, st: h.get('n2').eq(t.zresize(a['b'], 32))),
                                     ('sent', lambda h, a, st: h.get('n0').eq(1)), ('received', lambda h, a, st: h.get('n3').eq(1))]))

ECHO = '''
from veriloggen.thread import uart
l1, l2 = m.Wire('l1'), m.Wire('l2')
tx = uart.UartTx(m, 'tx', 'tx_', CLK, RST, txd=l1, baudrate=100, clockfreq=300)
rx = uart.UartRx(m, 'rx', 'rx_', CLK, RST, rxd=l2, baudrate=100, clockfreq=300)
tx2 = uart.UartTx(m, 'tx2', 'tx2_', CLK, RST, txd=l2, baudrate=100, clockfreq=300)
rx2 = uart.UartRx(m, 'rx2', 'rx2_', CLK, RST, rxd=l1, baudrate=100, clockfreq=300)
def host():
    tx.send(a)
    n0.value = rx.recv()
    tx.send(b)
    n1.value = rx.recv()
    n2.value = 1
def target():
    while True:
        v = rx2.recv()
        tx2.send(v + 1)
ts = vthread.Thread(m, 'ts', CLK, RST, host)
tr = vthread.Thread(m, 'tr', CLK, RST, target)
ts.start()
tr.start()
'''
R.add('echo', conc(ECHO, args={'a': 8, 'b': 8}, outs={'n0': 32, 'n1': 32, 'n2': 32}, free=0, drain=190,
                   final=[('first answer', lambda h, a, st: h.get('n0').eq(t.zresize(a['a'] + 1, 32))), ('second answer', lambda h, a, st: h.get('n1').eq(t.zresize(a['b'] + 1, 32))),
                          ('finished', lambda h, a, st: h.get('n2').eq(1))]))

SHARED = '''
from veriloggen.thread import uart
line = m.Wire('line')
tx = uart.UartTx(m, 'tx', 'tx_', CLK, RST, txd=line, baudrate=100, clockfreq=300)
rx = uart.UartRx(m, 'rx', 'rx_', CLK, RST, rxd=line, baudrate=100, clockfreq=300)
def one():
    tx.lock()
    tx.send(a)
    tx.send(b)
    tx.unlock()
def two():
    for i in range(w):
        pass
    tx.lock()
    tx.send(d)
    tx.unlock()
def receiver():
    n1.value = rx.recv()
    n2.value = rx.recv()
    n3.value = rx.recv()
    n0.value = 1
for f in (one, two, receiver):
    vthread.Thread(m, 't_' + f.__name__, CLK, RST, f).start()
'''


def order(h, a, st):
    x, y, d = (t.zresize(a[k], 32) for k in 'abd')
    g = [h.get('n%d' % i) for i in (1, 2, 3)]
    return t.or_(t.conj([g[0].eq(x), g[1].eq(y), g[2].eq(d)]), t.conj([g[0].eq(d), g[1].eq(x), g[2].eq(y)]))


R.add('shared', conc(SHARED, args={'a': 8, 'b': 8, 'd': 8, 'w': 2}, outs={'n0': 32, 'n1': 32, 'n2': 32, 'n3': 32}, free=0, drain=200,
                     final=[('every byte once, pairs together', order), ('finished', lambda h, a, st: h.get('n0').eq(1))]))

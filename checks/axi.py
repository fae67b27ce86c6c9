"""AXI bus environments made of symbolic words: every handshake bit inside the window of its channel is a fresh
symbolic value, the monitors collect what crossed each channel and which protocol rule was broken."""
from vlib import term as t
from vlib.term import const, ite
from checks.thlib import load
from checks.tstrm import Mem

CW = 6     # width of the beat and burst counters
K = lambda v, w=CW: const(v, w)


class Lst(object):
    """list of symbolic words with a symbolic length"""

    def __init__(self, n, w):
        self.v = [const(0, w) for _ in range(n)]
        self.n = K(0)
        self.w = w
        self.over = t.false()

    def push(self, v, when):
        for i in range(len(self.v)):
            self.v[i] = ite(t.and_(when, self.n.eq(i)), v, self.v[i])
        self.over = t.or_(self.over, t.and_(when, self.n.uge(len(self.v))))
        self.n = ite(when, self.n + 1, self.n)


class Chan(object):
    """handshake of one channel; the side with the valid is observed for stability"""

    def __init__(self, valid, ready, payload=()):
        self.valid, self.ready, self.payload = valid, ready, payload
        self.prev = None

    def look(self, h, bad, name):
        v, r = h.get(self.valid), h.get(self.ready)
        p = [h.get(x) for x in self.payload]
        if self.prev is not None:
            pv, pr, pp = self.prev
            hold = t.and_(pv, t.not_(pr))
            ok = t.conj([v] + [a.eq(b) for a, b in zip(p, pp)])
            bad[name + ' valid and payload stable until ready'] = t.or_(bad.get(name + ' valid and payload stable until ready', t.false()), t.and_(hold, t.not_(ok)))
        self.prev = (v, r, p)
        return t.and_(v, r), p


def acc(bad, name, c):
    bad[name] = t.or_(bad.get(name, t.false()), c)


class Master(object):
    """slave side of the bus for an AXI master `p` in the design: accepts requests, returns the words of R in order,
    collects the written beats in W; win: {channel: range of cycles with symbolic handshake}, others are prompt"""

    def __init__(self, c, h, p, win=None, nreq=4, nbeat=8, lite=False, dw=8, rd=True, wr=True, R=None, answer=True, never=()):
        self.c, self.h, self.p, self.lite = c, h, p, lite
        self.win = win or {}
        self.s = 0
        self.bad = {}
        self.rd, self.wr = rd, wr
        self.answer = answer
        self.never = never
        n = lambda x: p + '_' + x
        self.n = n
        self.aw_w = h.width(n('awaddr' if wr else 'araddr'))
        self.dw = dw
        if rd:
            self.ar = Lst(nreq, self.aw_w)
            self.arlen = Lst(nreq, 9)
            self.rsum = K(0)
            self.rends = Lst(nreq, CW)
            self.rcnt = K(0)
            self.R = R if R is not None else [c.fresh('bus%d' % i, dw) for i in range(nbeat)]
            self.c_ar = Chan(n('arvalid'), n('arready'), [n('araddr')] + ([] if lite else [n('arlen')]))
            self.rvalid = t.false()
            self.rhold = t.false()
        if wr:
            self.aw = Lst(nreq, self.aw_w)
            self.awlen = Lst(nreq, 9)
            self.wsum = K(0)
            self.W = Lst(nbeat, dw)
            self.WL = Lst(nbeat, 1)
            self.WS = Lst(nbeat, dw // 8)
            self.wlast = K(0)
            self.bcnt = K(0)
            self.bhold = t.false()
            self.c_aw = Chan(n('awvalid'), n('awready'), [n('awaddr')] + ([] if lite else [n('awlen')]))
            self.c_w = Chan(n('wvalid'), n('wready'), [n('wdata'), n('wstrb')] + ([] if lite else [n('wlast')]))

    def sym(self, ch):
        return self.c.fresh('%s_%s%d' % (self.p, ch, self.s), 1) if self.s in self.win.get(ch, ()) else t.false() if ch in self.never else t.true()

    def idle(self):
        h, n = self.h, self.n
        if self.rd:
            h.set(n('arready'), 0)
            h.set(n('rvalid'), 0)
            h.set(n('rdata'), 0)
            if not self.lite:
                h.set(n('rlast'), 0)
        if self.wr:
            for x in ('awready', 'wready', 'bvalid'):
                h.set(n(x), 0)

    def drive(self):
        """inputs of this cycle, from what happened before"""
        h, n = self.h, self.n
        if self.rd:
            h.set(n('arready'), self.sym('ar'))
            avail = self.rcnt.ult(self.rsum) if self.answer else t.false()
            self.rv = t.and_(avail, t.or_(self.rhold, self.sym('r')))
            h.set(n('rvalid'), self.rv)
            h.set(n('rdata'), t.select(self.R, self.rcnt, const(0, self.dw)))
            if not self.lite:
                last = t.disj([t.and_(self.rends.n.ugt(i), self.rends.v[i].eq(self.rcnt + 1)) for i in range(len(self.rends.v))])
                h.set(n('rlast'), last)
        if self.wr:
            h.set(n('awready'), self.sym('aw'))
            h.set(n('wready'), self.sym('w'))
            full = ite(self.aw.n.ult(self.wlast), self.aw.n, self.wlast)
            self.bv = t.and_(self.bcnt.ult(full), t.or_(self.bhold, self.sym('b')))
            h.set(n('bvalid'), self.bv)

    def look(self):
        """what crosses the channels in this cycle"""
        h, n, bad = self.h, self.n, self.bad
        if self.rd:
            f, p = self.c_ar.look(h, bad, 'AR')
            ln = const(1, 9) if self.lite else p[1].zx(9) + 1
            self.ar.push(p[0], f)
            self.arlen.push(ln, f)
            e = self.rsum + t.zresize(ln, CW)
            self.rends.push(e, f)
            self.rsum = ite(f, e, self.rsum)
            rr = h.get(n('rready'))
            self.rhold = t.and_(self.rv, t.not_(rr))
            self.rcnt = ite(t.and_(self.rv, rr), self.rcnt + 1, self.rcnt)
        if self.wr:
            f, p = self.c_aw.look(h, bad, 'AW')
            self.aw.push(p[0], f)
            ln = const(1, 9) if self.lite else p[1].zx(9) + 1
            self.awlen.push(ln, f)
            self.wsum = ite(f, self.wsum + t.zresize(ln, CW), self.wsum)
            f, p = self.c_w.look(h, bad, 'W')
            self.W.push(p[0], f)
            self.WS.push(p[1], f)
            last = t.true() if self.lite else p[2]
            self.WL.push(last, f)
            self.wlast = ite(t.and_(f, last), self.wlast + 1, self.wlast)
            br = h.get(n('bready'))
            self.bhold = t.and_(self.bv, t.not_(br))
            self.bcnt = ite(t.and_(self.bv, br), self.bcnt + 1, self.bcnt)
        self.s += 1

    # ---------------------------------------------------------------- rules
    def legal(self, boundary=4096, limit=256):
        """bursts within the limit and the boundary, beats and last flags as announced"""
        c, B = self.c, self.dw // 8
        sh = B.bit_length() - 1
        for k, q in sorted(self.bad.items()):
            c.check(k, t.not_(q))

        def bursts(what, a, l):
            c.check(what + ': requests within the collected number', t.not_(a.over))
            for i in range(len(a.v)):
                live = a.n.ugt(i)
                c.check('%s %d: at least one beat, at most the limit' % (what, i), t.implies(live, t.and_(l.v[i].ne(0), l.v[i].ule(limit))))
                W = 20
                off = t.zresize(a.v[i] & const(boundary - 1, a.w), W)
                base = off & const(-(1 << sh), W)
                c.check('%s %d: inside the boundary' % (what, i), t.implies(live, (base + (t.zresize(l.v[i], W) << sh if False else t.zresize(l.v[i], W) * B)).ule(boundary)))
        if self.rd:
            bursts('AR', self.ar, self.arlen)
        if self.wr:
            bursts('AW', self.aw, self.awlen)
            c.check('W: beats within the collected number', t.not_(self.W.over))
            end = [K(0)]
            for i in range(len(self.aw.v)):
                end.append(end[-1] + t.zresize(self.awlen.v[i], CW))
            for j in range(len(self.W.v)):
                live = self.W.n.ugt(j)
                is_end = t.disj([t.and_(self.aw.n.ugt(i), end[i + 1].eq(j + 1)) for i in range(len(self.aw.v))])
                c.check('W %d: the last flag is on the final beat of its burst only' % j, t.implies(live, self.WL.v[j].eq(is_end)))
                c.check('W %d: every byte of the word is enabled' % j, t.implies(live, self.WS.v[j].eq(-1)))

    def covers(self, what, a, l, start, total):
        """requests of list a,l advance from start without gap or overlap and sum to total (terms)"""
        c, B = self.c, self.dw // 8
        x = start & const(-B, start.w)
        tot = const(0, 20)
        for i in range(len(a.v)):
            live = a.n.ugt(i)
            c.check('%s %d starts where the previous one ended' % (what, i), t.implies(live, (a.v[i] & const(-B, x.w)).eq(x)))
            x = ite(live, x + t.zresize(l.v[i], x.w) * B, x)
            tot = ite(live, tot + t.zresize(l.v[i], 20), tot)
        c.check('%s: the bursts sum up to the request' % what, tot.eq(t.zresize(total, 20) if isinstance(total, t.T) else total))


def build(src, rams, args, outs, info, env=None, inner=None):
    import veriloggen as vg
    import veriloggen.thread as vthread
    import veriloggen.types.util as util
    import veriloggen.types.axi as axi
    m = vg.Module('dut')
    clk, rst = m.Input('CLK'), m.Input('RST')
    e = {'m': m, 'CLK': clk, 'RST': rst, 'vthread': vthread, 'vg': vg, 'util': util, 'axi': axi}
    e.update(env or {})
    for n, w in (args or {}).items():
        w, s = w if isinstance(w, tuple) else (w, False)
        e[n] = m.Input(n, w, signed=s)
    for n, w in (outs or {}).items():
        w, s = w if isinstance(w, tuple) else (w, True)
        e[n] = m.OutputReg(n, w, initval=0, signed=s)
    for n, r in (rams or {}).items():
        dw, aw = r[:2]
        o = dict(r[2]) if len(r) > 2 else {}
        cls = o.pop('cls', 'RAM')
        e[n] = getattr(vthread, cls)(m, n, clk, rst, dw, aw, **o)
    load(src, e)
    for k in ('th', 'thb'):
        if k in e:
            info[k] = (e[k].name, e[k].end_state)
    return m


def taxi(src, rams=None, ref=None, args=None, outs=None, cycles=64, win=None, pre=None, bus=None, dw=8, env=None, autosplit=False, lite=False,
         legal=True, boundary=4096, limit=256, at=(), more=None, noram=False, extra=6, done=True, tie=None):
    """src: design statements with an AXI master named `ax` and a control thread `th`;
    ref(M, a, b): expected effects on M[ram], a dict of expected output registers; b: the bus environment
    at: [(flag output, fn(h, b))]: must hold in every cycle in which the flag register is set"""
    def sc(c):
        info = c.built('info', dict)
        txt = c.verilog('d', lambda: build(src, rams, args, outs, info, env))
        h = c.hw(txt, 'dut', autosplit=autosplit)
        a = {}
        for n, w in (args or {}).items():
            w = w[0] if isinstance(w, tuple) else w
            a[n] = c.fresh(n, w)
            h.set(n, a[n])
        if pre is not None:
            for q in pre(a):
                c.assume(q)
        for n, v in (tie or {}).items():
            h.set(n, v)
        b = Master(c, h, 'ax', win, lite=lite, dw=dw, **(bus or {}))
        b.idle()
        h.reset()
        names = []
        for n, r in (rams or {}).items():
            o = r[2] if len(r) > 2 else {}
            k = o.get('numbanks')
            names += [(n, 'inst_%s.mem' % n, r)] if not k else [('%s_%d' % (n, i), 'inst_%s_%d.mem' % (n, i), r) for i in range(k)]
        M = {}
        for n, path, r in names:
            M[n] = Mem([h.get(path, i) for i in range(2 ** r[1])], r[1])
        exp = ref(M, a, b) if ref is not None else {}
        exp = exp if isinstance(exp, dict) else {}
        thn = info.get('th')
        early = {}

        def look():
            b.drive()
            b.look()
            for k, (flag, fn) in enumerate(at):
                acc(early, '%s #%d' % (flag, k), t.and_(t.redor(h.get(flag)), t.not_(fn(h, b))))
        s = 0
        while s < cycles:
            st = h.get(thn[0])
            if done and st.op == 'const' and t.sval(st) == thn[1] and s >= max([0] + [max(w) + 1 for w in (win or {}).values() if len(w)]):
                break
            look()
            h.step()
            s += 1
        if done:
            c.check('the thread finishes', h.get(thn[0]).eq(thn[1]), 'state after %d cycles' % cycles)
        for s in range(extra):
            look()
            h.step()
        for n, path, r in () if noram else names:
            for i in range(2 ** r[1]):
                c.check('%s[%d]' % (n, i), h.get(path, i).eq(M[n].w[i]))
        for o, v in exp.items():
            g = h.get(o)
            c.check(o, g.eq(t.zresize(v, g.w) if isinstance(v, t.T) else v))
        for k, q in early.items():
            c.check('in every cycle with flag ' + k, t.not_(q))
        if legal:
            b.legal(boundary, limit)
        if more is not None:
            more(c, h, a, b, M)
    return sc

"""Bus master environment for an AXI (or AXI lite) slave made of symbolic words: every handshake bit inside the windows is a
fresh symbolic value; lists of write and read requests with symbolic addresses and data."""
from vlib import term as t
from vlib.term import const, ite
from checks.axi import acc

CW = 6
K = lambda v, w=CW: const(v, w)


def pick(l, i, w):
    """l[i] for a symbolic index"""
    r = const(0, w)
    for k, v in enumerate(l):
        r = ite(i.eq(k), t.zresize(v, w) if isinstance(v, t.T) else const(v, w), r)
    return r


class Bus(object):
    """writes: [dict(addr, data=[..], strb=[..] or None, id, after=fn(bus), wafter=fn(bus))], reads: [dict(addr, n, id, after, until)]
    after: when the request may be put on the bus; without one a request may be offered as soon as the previous one of its
    channel was accepted; until: the read is repeated until its first word has that value"""

    def __init__(self, c, h, p, writes=(), reads=(), win=None, lite=False, dw=32, ids=0):
        self.c, self.h, self.p, self.lite, self.dw, self.ids = c, h, p, lite, dw, ids
        self.writes, self.reads = list(writes), list(reads)
        self.win = win or {}
        self.s = 0
        self.bad = {}
        self.aw, self.ar, self.b, self.r = K(0), K(0), K(0), K(0)     # requests accepted, responses finished
        self.wn, self.wb = K(0), K(0)        # bursts of data finished, beat in the current one
        self.rb = K(0)
        self.hold = dict((ch, t.false()) for ch in ('aw', 'w', 'ar'))
        self.prev = {}
        self.pay = {}
        self.got = [[const(0, dw) for _ in range(r['n'])] for r in self.reads]
        self.events = []

    def n(self, s):
        return self.p + '_' + s

    def sym(self, ch):
        w = self.win.get(ch, ())
        return self.c.fresh('%s%d' % (ch, self.s), 1).nz() if self.s in w else t.true()

    def idle(self):
        h = self.h
        for q in ('awvalid', 'wvalid', 'bready', 'arvalid', 'rready', 'awaddr', 'araddr', 'wdata', 'wstrb') + (
                () if self.lite else ('awlen', 'arlen', 'wlast')):
            h.set(self.n(q), 0)
        if not self.lite:
            for ch in ('aw', 'ar'):
                for q, v in (('size', self.dw.bit_length() - 4), ('burst', 1), ('lock', 0), ('cache', 3), ('prot', 0), ('qos', 0)):
                    h.set(self.n(ch + q), v)
                for q in ('user', 'id'):
                    if self.has(ch + q):
                        h.set(self.n(ch + q), 0)
            for q in ('wuser', 'wid'):
                if self.has(q):
                    h.set(self.n(q), 0)
        else:
            for ch in ('aw', 'ar'):
                for q, v in (('cache', 3), ('prot', 0)):
                    if self.has(ch + q):
                        h.set(self.n(ch + q), v)

    def has(self, q):
        return self.h.has(self.n(q))

    def done(self):
        return t.and_(self.b.eq(len(self.writes)), self.r.eq(len(self.reads)))

    def drive(self):
        """inputs of this cycle"""
        h, nw, nr = self.h, len(self.writes), len(self.reads)
        want = {}
        x = t.true()
        for i, q in enumerate(self.writes):
            if q.get('after'):
                x = t.and_(x, t.implies(self.aw.eq(i), q['after'](self)))
        want['aw'] = t.and_(self.aw.ult(nw), x)
        x = t.true()
        for i, q in enumerate(self.writes):
            f = q.get('wafter') or q.get('after')
            if f:
                x = t.and_(x, t.implies(self.wn.eq(i), f(self)))
        want['w'] = t.and_(self.wn.ult(nw), x)
        x = t.true()
        for i, q in enumerate(self.reads):
            if q.get('after'):
                x = t.and_(x, t.implies(self.ar.eq(i), q['after'](self)))
        want['ar'] = t.and_(self.ar.ult(nr), x)
        self.v = {}
        for ch in ('aw', 'w', 'ar'):
            self.v[ch] = t.and_(want[ch], t.or_(self.hold[ch], self.sym(ch)))
            h.set(self.n(ch + 'valid'), ite(self.v[ch], const(1, 1), const(0, 1)))
        junk = const(0x5a5a5a5a, 32)
        aw = h.width(self.n('awaddr'))
        if nw:
            h.set(self.n('awaddr'), ite(self.v['aw'], pick([q['addr'] for q in self.writes], self.aw, aw), t.zresize(junk, aw)))
            beats = [[x for x in q['data']] for q in self.writes]
            d, sb = const(0, self.dw), const(0, self.dw // 8)
            last = t.false()
            for i, q in enumerate(self.writes):
                e = self.wn.eq(i)
                d = ite(e, pick(q['data'], self.wb, self.dw), d)
                sb = ite(e, pick(q.get('strb') or [(1 << self.dw // 8) - 1] * len(q['data']), self.wb, self.dw // 8), sb)
                last = t.or_(last, t.and_(e, self.wb.eq(len(q['data']) - 1)))
            self.last = last
            h.set(self.n('wdata'), ite(self.v['w'], d, t.zresize(junk, self.dw) if self.dw <= 32 else const(0x1234, self.dw)))
            h.set(self.n('wstrb'), ite(self.v['w'], sb, const(0, self.dw // 8)))
            if not self.lite:
                h.set(self.n('awlen'), ite(self.v['aw'], pick([len(q['data']) - 1 for q in self.writes], self.aw, 8), const(7, 8)))
                h.set(self.n('wlast'), ite(t.and_(self.v['w'], last), const(1, 1), const(0, 1)))
                if self.ids:
                    h.set(self.n('awid'), pick([q['id'] for q in self.writes], self.aw, self.ids))
        if nr:
            h.set(self.n('araddr'), ite(self.v['ar'], pick([q['addr'] for q in self.reads], self.ar, aw), t.zresize(junk, aw)))
            if not self.lite:
                h.set(self.n('arlen'), ite(self.v['ar'], pick([q['n'] - 1 for q in self.reads], self.ar, 8), const(7, 8)))
                if self.ids:
                    h.set(self.n('arid'), pick([q['id'] for q in self.reads], self.ar, self.ids))
        for ch in ('b', 'r'):
            h.set(self.n(ch + 'ready'), ite(self.sym(ch), const(1, 1), const(0, 1)))

    def look(self):
        """outputs of this cycle; -> dict of events"""
        h = self.h
        ev = {}
        for ch in ('aw', 'w', 'ar'):
            rdy = h.get(self.n(ch + 'ready')).nz()
            ev[ch] = t.and_(self.v[ch], rdy)
            self.hold[ch] = t.and_(self.v[ch], t.not_(rdy))
        for ch, pay in (('b', ['bresp'] + (['bid'] if self.ids else [])),
                        ('r', ['rdata', 'rresp'] + ([] if self.lite else ['rlast']) + (['rid'] if self.ids else []))):
            v, rdy = h.get(self.n(ch + 'valid')).nz(), h.get(self.n(ch + 'ready')).nz()
            p = [h.get(self.n(x)) for x in pay]
            if ch in self.prev:
                pv, pp = self.prev[ch]
                acc(self.bad, ch + ' valid and payload stable until ready', t.and_(pv, t.not_(t.conj([v] + [a.eq(b) for a, b in zip(p, pp)]))))
            self.prev[ch] = (t.and_(v, t.not_(rdy)), p)
            ev[ch] = t.and_(v, rdy)
            acc(self.bad, ch + ' response is OKAY', t.and_(v, h.get(self.n(ch + 'resp')).nz()))
            if ch == 'b':
                # a response belongs to a write whose address and data were taken in earlier cycles
                acc(self.bad, 'write response without a finished write', t.and_(v, t.not_(t.and_(self.b.ult(self.aw), self.b.ult(self.wn)))))
                if self.ids:
                    acc(self.bad, 'write response id', t.and_(v, h.get(self.n('bid')).ne(pick([q['id'] for q in self.writes], self.b, self.ids))))
            else:
                acc(self.bad, 'read data without a request', t.and_(v, t.not_(self.r.ult(self.ar))))
                if self.ids:
                    acc(self.bad, 'read data id', t.and_(v, h.get(self.n('rid')).ne(pick([q['id'] for q in self.reads], self.r, self.ids))))
        rl = t.false()
        again = t.false()
        if self.reads:
            d = h.get(self.n('rdata'))
            for i, q in enumerate(self.reads):
                e = self.r.eq(i)
                end = self.rb.eq(q['n'] - 1)
                rl = t.or_(rl, t.and_(e, end))
                for k in range(q['n']):
                    self.got[i][k] = ite(t.and_(ev['r'], e, self.rb.eq(k)), d, self.got[i][k])
                if q.get('until') is not None:
                    again = t.or_(again, t.and_(e, t.not_(d.eq(t.zresize(q['until'], self.dw) if isinstance(q['until'], t.T) else q['until']))))
            if not self.lite:
                acc(self.bad, 'last flag on the final word only', t.and_(h.get(self.n('rvalid')).nz(), t.not_(h.get(self.n('rlast')).nz().eq(rl))))
        rend = t.and_(ev['r'], rl)
        ev['rend'] = rend
        ev['rfinal'] = t.and_(rend, t.not_(again))
        wend = t.and_(ev['w'], self.last) if self.writes else t.false()
        ev['wend'] = wend
        ev['state'] = (self.aw, self.wn, self.wb, self.b, self.ar, self.r, self.rb)
        self.aw = ite(ev['aw'], self.aw + 1, self.aw)
        self.b = ite(ev['b'], self.b + 1, self.b)
        self.wn = ite(wend, self.wn + 1, self.wn)
        self.wb = ite(ev['w'], ite(wend, K(0), self.wb + 1), self.wb)
        self.ar = ite(t.and_(rend, again), self.ar - 1, ite(ev['ar'], self.ar + 1, self.ar))
        self.r = ite(ev['rfinal'], self.r + 1, self.r)
        self.rb = ite(ev['r'], ite(rl, K(0), self.rb + 1), self.rb)
        self.s += 1
        return ev

    def verdict(self):
        for n, q in self.bad.items():
            self.c.check(n, t.not_(q))
        self.c.check('every write is answered once', self.b.eq(len(self.writes)))
        self.c.check('every read is answered', self.r.eq(len(self.reads)))

"""Memories and ROMs keep and return exactly the words written."""
from vlib.harness import Registry
from vlib import term as t
from vlib.term import const, ite

R = Registry('C20', 'model_checking', ['types/ram.py', 'types/rom.py', 'types/util.py'],
             assumptions=['one clock; two ports never write the same word in the same cycle (the Verilog result is unordered)'],
             explanation='RAM and ROM generators of several shapes; arbitrary initial contents (or the declared ones), all address, data, write and '
                         'enable sequences, compared with an array model; ROMs against the table for every address.')


def sel(words, a):
    r = words[0]
    for i in range(1, len(words)):
        r = ite(a.eq(const(i, a.w)), words[i], r)
    return r


def ram(dw, aw, np, sync, en, initvals=None, form='def', style=None):
    def f():
        import veriloggen as vg
        from veriloggen.types import ram as R_
        iv = list(initvals) if initvals is not None else None
        if iv is not None and form == 'Int':
            iv = [vg.Int(v) for v in iv]
        if iv is not None and form == 'hex':
            iv = [vg.Int("%d'h%x" % (dw, v)) for v in iv]
        if iv is not None and form == 'bin':
            iv = [vg.Int("%d'b%s" % (dw, bin(v)[2:])) for v in iv]
        if iv is not None and form == 'tuple':
            iv = list(iv)
        if form in ('def', 'Int', 'hex', 'bin', 'tuple'):
            return R_.mkRAMDefinition('ram', dw, aw, np, iv, sync, en, ram_style=style)
        m = vg.Module('dut')
        clk = m.Input('CLK')
        if form == 'obj':
            cls = R_.SyncRAM if sync else R_.AsyncRAM
            r = cls(m, 'ram', clk, dw, aw, np, iv, en)
            for i in range(np):
                p = lambda n, w=None: m.Input('ram_%d_%s_' % (i, n), w)
                e = p('enable') if en else None
                r.connect(i, p('addr', aw), p('wdata', dw), p('wenable'), e)
                m.Output('ram_%d_rdata_' % i, dw).assign(r.rdata(i))
            return m
        if form == 'iface':
            d = R_.mkRAMDefinition('ram', dw, aw, np, iv, sync, en)
            ports = [('CLK', clk)]
            for i in range(np):
                s = R_.RAMSlaveInterface(m, 'ram_%d' % i, dw, aw, with_enable=en)
                w = R_.RAMInterface(m, 'w_%d' % i, dw, aw, with_enable=en)
                w.connect(s)
                for n in ('addr', 'rdata', 'wdata', 'wenable') + (('enable',) if en else ()):
                    ports.append(('ram_%d_%s' % (i, n), getattr(w, n)))
            m.Instance(d, 'iram', ports=ports)
            return m
        raise KeyError(form)
    return f


def ram_scn(dw, aw, np, sync, en, initvals=None, form='def', cycles=4, style=None):
    def sc(c):
        top = 'ram' if form in ('def', 'Int', 'hex', 'bin', 'tuple') else 'dut'
        h = c.hw(c.verilog('d', ram(dw, aw, np, sync, en, initvals, form, style)), top)
        suf = '_' if form == 'obj' else ''
        mem = {'dut': 'iram.mem' if form == 'iface' else 'ram.mem', 'ram': 'mem'}[top]
        n = 1 << aw
        for k in ('addr', 'wdata', 'wenable', 'enable'):
            for i in range(np):
                nm = 'ram_%d_%s%s' % (i, k, suf)
                if h.has(nm):
                    h.set(nm, 0)
        words = [h.get(mem, i) for i in range(n)]
        if initvals is not None:
            full = [v & t.mask(dw) for v in initvals] + [0] * (n - len(initvals))
            for i in range(n):
                c.eqv('initial word %d' % i, words[i], const(full[i], dw))
            words = [const(v, dw) for v in full]
        out = [None] * np
        for s in range(cycles):
            P = []
            for i in range(np):
                a, d, w = c.fresh('a%d_%d' % (i, s), aw), c.fresh('d%d_%d' % (i, s), dw), c.fresh('w%d_%d' % (i, s), 1)
                e = c.fresh('e%d_%d' % (i, s), 1) if en else const(1, 1)
                p = 'ram_%d_' % i
                h.set(p + 'addr' + suf, a)
                h.set(p + 'wdata' + suf, d)
                h.set(p + 'wenable' + suf, w)
                if en:
                    h.set(p + 'enable' + suf, e)
                P.append((a, d, t.and_(w.eq(1), e.eq(1)), e.eq(1)))
            for i in range(np):
                for j in range(i):
                    c.assume(t.not_(t.and_(P[i][2], P[j][2], P[i][0].eq(P[j][0]))))
            if not sync:
                for i in range(np):
                    c.eqv('async read %d cycle %d' % (i, s), h.get('ram_%d_rdata%s' % (i, suf)), sel(words, P[i][0]))
            h.step()
            for i in range(np):
                a, d, w, e = P[i]
                v = ite(w, d, sel(words, a))
                out[i] = ite(e, v, out[i]) if out[i] is not None else (v if not en else None)
                if en and out[i] is None:
                    out[i] = h.get('ram_%d_rdata%s' % (i, suf))
                    if sync:
                        c.check('read %d cycle %d' % (i, s), t.implies(e, out[i].eq(v)))
            new = list(words)
            for i in range(np):
                a, d, w, e = P[i]
                new = [ite(t.and_(w, a.eq(const(k, aw))), d, new[k]) for k in range(n)]
            words = new
            if sync:
                for i in range(np):
                    c.eqv('read %d after cycle %d' % (i, s), h.get('ram_%d_rdata%s' % (i, suf)), out[i])
            for k in range(n):
                c.eqv('word %d after cycle %d' % (k, s), h.get(mem, k), words[k])
    return sc


for _np in (1, 2, 3):
    for _sync in (True, False):
        for _en in (False, True):
            nm = '%dport_%s%s' % (_np, 'sync' if _sync else 'async', '_en' if _en else '')
            R.add('ram_' + nm, ram_scn(4, 2, _np, _sync, _en), bounds='4-bit words, 4 words, 4 cycles')
            if _np < 3:
                R.add('ramobj_' + nm, ram_scn(3, 2, _np, _sync, _en, form='obj', cycles=3), bounds='3-bit words, 4 words, 3 cycles')
                R.add('ramif_' + nm, ram_scn(3, 1, _np, _sync, _en, form='iface', cycles=3), bounds='3-bit words, 2 words, 3 cycles')
for _f in ('def', 'Int', 'hex', 'bin', 'obj'):
    for _iv in ([3, 1, 15, 8], [7, 0, 9], [5], list(range(8, 16))):
        R.add('init_%s_%d' % (_f, len(_iv)), ram_scn(4, 3 if len(_iv) > 4 else 2, 1, True, False, _iv, _f, cycles=2), bounds='declared contents, 2 cycles')
R.add('init_neg', ram_scn(4, 2, 2, True, True, [-1, -8, 3], 'def', cycles=2), bounds='negative initial words')
R.add('wide', ram_scn(32, 3, 2, True, False, cycles=4), bounds='32-bit words, 8 words')
R.add('wide_deep', ram_scn(32, 4, 2, True, True, cycles=6), tier='thorough', bounds='32-bit words, 16 words, 6 cycles', timeout=900)
R.add('three_deep', ram_scn(8, 3, 3, True, True, cycles=6), tier='thorough', bounds='3 ports, 6 cycles', timeout=900)
R.add('async_deep', ram_scn(8, 3, 3, False, True, cycles=6), tier='thorough', bounds='3 ports, 6 cycles', timeout=900)


# ---- ROM
def rom(values, dw, sync, en, form):
    def f():
        import math
        import veriloggen as vg
        from veriloggen.types import rom as R_
        vals = list(values)
        aw = max(1, int(math.ceil(math.log(len(values), 2))))
        if form == 'Int':
            vals = [vg.Int(v, width=dw) for v in vals]
        if form == 'def':
            return R_.mkROMDefinition('dut', vals, aw, dw, sync, en)
        m = vg.Module('dut')
        clk = m.Input('CLK')
        addr = m.Input('addr', aw)
        e = m.Input('enable') if en else None
        kw = {} if form == 'Int' else {'datawidth': dw}
        if sync:
            r = R_.SyncROM(m, 'rom', clk, addr, vals, e, **kw)
        else:
            r = R_.AsyncROM(m, 'rom', addr, vals, **kw)
        m.Output('val', dw).assign(r.rdata)
        return m
    return f


def rom_scn(values, dw, sync, en, form, cycles=4):
    def sc(c):
        h = c.hw(c.verilog('d', rom(values, dw, sync, en, form)), 'dut')
        aw = h.width('addr')
        n = len(values)
        tab = [const(v & t.mask(dw), dw) for v in values]
        h.set('addr', 0)
        if en:
            h.set('enable', 0)
        last = None
        for s in range(cycles):
            a = c.fresh('a%d' % s, aw)
            if n < 1 << aw:
                c.assume(a.ult(const(n, aw)))
            h.set('addr', a)
            e = const(1, 1)
            if en:
                e = c.fresh('e%d' % s, 1)
                if last is None:
                    e = const(1, 1)
                h.set('enable', e)
            if not sync:
                c.eqv('value %d' % s, h.get('val'), sel(tab, a))
            h.step()
            v = sel(tab, a)
            last = v if last is None else ite(e.eq(1), v, last)
            if sync:
                c.eqv('value after cycle %d' % s, h.get('val'), last)
    return sc


VT = [[1, 2, 3, 4], [5, 0, 7], [9, 3, 12, 15, 1, 1, 8, 2], [0, 255, 128, 1, 127], [3, 1], [77 * i % 251 for i in range(17)]]
for _i, _v in enumerate(VT):
    for _form in ('def', 'obj', 'Int'):
        for _s, _e in ((False, False), (True, False), (True, True)):
            R.add('rom_%d_%s_%s%s' % (_i, _form, 'sync' if _s else 'async', '_en' if _e else ''), rom_scn(_v, 8, _s, _e, _form, 3),
                  bounds='table of %d words, 3 cycles' % len(_v))
R.add('rom_neg', rom_scn([-1, -128, 5, 127], 8, True, False, 'obj', 2), bounds='negative words')

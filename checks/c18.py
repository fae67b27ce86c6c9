"""FIFO: order, losslessness, flags, occupancy."""
from vlib.harness import Registry
from vlib import term as t
from vlib.term import const, ite

R = Registry('C18', 'model_checking',
             ['types/fifo.py', 'thread/fifo.py'],
             assumptions=['one clock; synchronous reset applied for two cycles before the first operation',
                          'queue discipline is observed for one symbolic word index per run (data independence is not assumed: '
                          'the index ranges over all words)'],
             explanation='FIFO definitions and FIFO objects instantiated with raw enqueue/dequeue ports; all enqueue/dequeue/data '
                         'sequences of the stated length; compared with counters of accepted and delivered words.')


def ports_fifo(dw, aw, sync, kind='obj'):
    import veriloggen as vg
    import veriloggen.thread as vthread
    import veriloggen.types.fifo as fifo
    m = vg.Module('dut')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    if kind.startswith('ext'):
        kw = {}
        if kind in ('extw', 'extrw'):
            kw['external_write'] = True
        if kind in ('extr', 'extrw'):
            kw['external_read'] = True
        if kind == 'extw':
            pass
        f = vthread.FIFO(m, 'f', clk, rst, datawidth=dw, addrwidth=aw, sync=sync, **kw)
        if not kw.get('external_write'):
            f.connect_enq_rtl(m.Input('f_enq_'), m.Input('f_wdata_', dw), m.Output('f_full_'), m.Output('f_almost_full_'))
        if not kw.get('external_read'):
            f.connect_deq_rtl(m.Input('f_deq_'), m.Output('f_rdata_', dw), m.Output('f_empty_'), m.Output('f_almost_empty_'))
        return m
    enq = m.Input('enq')
    wdata = m.Input('wdata', dw)
    deq = m.Input('deq')
    full, afull = m.Output('full'), m.Output('afull')
    empty, aempty = m.Output('empty'), m.Output('aempty')
    rdata = m.Output('rdata', dw)
    if kind == 'def':
        d = fifo.mkFifoDefinition('g', dw, aw, sync)
        m.Instance(d, 'i', ports=[('CLK', clk), ('RST', rst), ('g_enq', enq), ('g_wdata', wdata), ('g_full', full),
                                  ('g_almost_full', afull), ('g_deq', deq), ('g_rdata', rdata), ('g_empty', empty),
                                  ('g_almost_empty', aempty)])
        return m
    cnt = m.Output('cnt', aw + 1)
    space = m.Output('space', 32)
    hs = [m.Output('hs%d' % i) for i in range(4)]
    f = vthread.FIFO(m, 'f', clk, rst, datawidth=dw, addrwidth=aw, sync=sync)
    f.connect_enq_rtl(enq, wdata, full, afull)
    f.connect_deq_rtl(deq, rdata, empty, aempty)
    cnt.assign(f.count)
    space.assign(f.space)
    for i in range(4):
        hs[i].assign(f.has_space(i))
    return m


def fifo_scn(dw, aw, sync, cycles, kind='obj', data=True):
    """the j-th accepted word is the j-th delivered word, j symbolic; flags and counts exact"""
    def sc(c):
        h = c.hw(c.verilog('d', lambda: ports_fifo(dw, aw, sync, kind)), 'dut')
        nm = lambda n: n
        if kind.startswith('ext'):
            iw = '' if kind in ('extw', 'extrw') else '_'
            ir = '' if kind in ('extr', 'extrw') else '_'
            tab = {'enq': 'f_enq' + iw, 'wdata': 'f_wdata' + iw, 'full': 'f_full' + iw, 'afull': 'f_almost_full' + iw,
                   'deq': 'f_deq' + ir, 'rdata': 'f_rdata' + ir, 'empty': 'f_empty' + ir, 'aempty': 'f_almost_empty' + ir}
            nm = tab.__getitem__
        h.set(nm('enq'), 0)
        h.set(nm('deq'), 0)
        h.reset()
        cap = 2 ** aw - 1
        cw = 6
        j = c.fresh('j', cw)
        wn, rn = const(0, cw), const(0, cw)
        seen = const(0, dw)
        hold = t.false()
        anyfull = t.false()
        for i in range(cycles):
            e, d, w = c.fresh('enq', 1), c.fresh('deq', 1), c.fresh('w', dw)
            h.set(nm('enq'), e)
            h.set(nm('deq'), d)
            h.set(nm('wdata'), w)
            n = wn - rn
            empty, full = n.eq(0), n.eq(cap)
            anyfull = t.or_(anyfull, full)
            c.check('full', t.eq(h.get(nm('full')), full))
            c.check('empty', t.eq(h.get(nm('empty')), empty))
            c.check('almost_full', t.eq(h.get(nm('afull')), n.uge(cap - 1)))
            c.check('almost_empty', t.eq(h.get(nm('aempty')), n.ule(1)))
            if kind == 'obj':
                c.check('count', h.get('cnt').zx(8).eq(n.zx(8)))
                c.check('space', h.get('space').eq(const(cap, 32) - n.zx(32)))
                for k in range(4):
                    room = (n.zx(9) + k).ule(cap)
                    c.check('has_space_sound%d' % k, t.implies(h.get('hs%d' % k), room))
                    c.check('has_space_useful%d' % k, t.implies((n.zx(9) + k).ult(cap), h.get('hs%d' % k)))
            if data:
                if sync:
                    c.check('rdata', t.implies(hold, h.get(nm('rdata')).eq(seen)))
                else:
                    c.check('rdata', t.implies(t.and_(t.not_(empty), rn.eq(j)), h.get(nm('rdata')).eq(seen)))
            push, pop = t.and_(e, t.not_(full)), t.and_(d, t.not_(empty))
            seen = ite(t.and_(push, wn.eq(j)), w, seen)
            # a synchronous read keeps its word until the next accepted read
            hold = ite(pop, rn.eq(j), hold)
            wn, rn = ite(push, wn + 1, wn), ite(pop, rn + 1, rn)
            h.step()
        c.cover('full', anyfull)
        c.cover('wrapped', wn.ugt(cap + 1))
    return sc


for _dw, _aw, _sync, _n in ((8, 1, True, 8), (8, 1, False, 8), (8, 2, True, 12), (8, 2, False, 12), (3, 3, True, 12),
                            (4, 3, False, 12)):
    R.add('rtl_dw%d_aw%d_%s' % (_dw, _aw, 'sync' if _sync else 'async'), fifo_scn(_dw, _aw, _sync, _n),
          bounds='%d cycles of arbitrary enq/deq/data, depth %d, width %d' % (_n, 2 ** _aw, _dw))
R.add('def_sync', fifo_scn(4, 2, True, 9, 'def'), bounds='9 cycles, depth 4, bare definition')
R.add('def_async', fifo_scn(4, 2, False, 9, 'def'), bounds='9 cycles, depth 4, bare definition')
for _k in ('extw', 'extr', 'extrw'):
    R.add('ports_%s' % _k, fifo_scn(4, 2, True, 9, _k), bounds='9 cycles, depth 4, external ports')
R.add('deep_sync', fifo_scn(8, 3, True, 18), tier='thorough', bounds='18 cycles, depth 8', timeout=1500)
R.add('deep4_sync', fifo_scn(4, 4, True, 20), tier='thorough', bounds='20 cycles, depth 16', timeout=1500)
R.add('deep_async', fifo_scn(8, 3, False, 18), tier='thorough', bounds='18 cycles, depth 8', timeout=1500)


def wide(dw, aw, sync):
    """one full cycle of fill and drain at larger depth (directed schedule, symbolic data)"""
    def sc(c):
        h = c.hw(c.verilog('d', lambda: ports_fifo(dw, aw, sync)), 'dut')
        h.set('enq', 0)
        h.set('deq', 0)
        h.reset()
        cap = 2 ** aw - 1
        q = []
        nread = 0
        # two rounds so that the pointers wrap
        sched = [(1, 0)] * (cap + 2) + [(0, 1)] * (cap // 2) + [(1, 1)] * (cap + 3) + [(0, 1)] * (cap + 2)
        exp = None
        for e, d in sched:
            w = c.fresh('w', dw)
            h.set('enq', e)
            h.set('deq', d)
            h.set('wdata', w)
            c.check('full', h.get('full').eq(int(len(q) == cap)))
            c.check('empty', h.get('empty').eq(int(not q)))
            c.check('afull', h.get('afull').eq(int(len(q) >= cap - 1)))
            c.check('aempty', h.get('aempty').eq(int(len(q) <= 1)))
            c.check('count', h.get('cnt').eq(len(q)))
            if not sync and q:
                c.check('rdata', h.get('rdata').eq(q[0]))
            if sync and exp is not None:
                c.check('rdata', h.get('rdata').eq(exp))
            full, empty = len(q) == cap, not q
            if d and not empty:
                exp = q.pop(0)
                nread += 1
            if e and not full:
                q.append(w)
            h.step()
        c.cover('end')
    return sc


R.add('fill_drain_aw4', wide(32, 4, True), bounds='directed fill/drain/stream schedule, depth 16, all 32-bit data')
R.add('fill_drain_aw5_async', wide(16, 5, False), bounds='directed fill/drain/stream schedule, depth 32, all data')

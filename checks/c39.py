"""A skid buffer passes every word once and in order at full throughput."""
from vlib.harness import Registry
from vlib import term as t
from vlib.term import const, ite
from vlib.models import Queue

R = Registry('C39', 'model_checking', ['types/skidbuffer.py', 'seq/seq.py'],
             assumptions=['one clock, synchronous reset for two cycles before the first word'],
             explanation='Skid buffers over one or several signals of mixed widths; arbitrary valid/ready/data sequences; delivered words compared '
                         'with a queue model, output stability under back pressure, no bubbles and no lost capacity.')


def gen(widths, kind, depth=1):
    def f():
        import veriloggen as vg
        from veriloggen.types import skidbuffer as sk
        m = vg.Module('dut')
        clk, rst = m.Input('CLK'), m.Input('RST')
        v, r = m.Input('s_valid'), m.Input('m_ready')
        ds = [m.Input('d%d' % i, w, signed=(i % 2 == 1)) for i, w in enumerate(widths)]
        sr, mv = m.Output('s_ready'), m.Output('m_valid')
        if kind == 'obj':
            vals, valid = ds, v
            # chained buffers: readiness flows backwards through wires
            rdys = [m.Wire('rdy%d' % i) for i in range(depth)] + [r]
            for i in range(depth):
                b = sk.SkidBuffer(m, clk, rst, valid, rdys[i + 1], *vals, prefix='sb%d' % i)
                rdys[i].assign(b.ready)
                vals, valid = b.values, b.valid
            for i, w in enumerate(widths):
                m.Output('q%d' % i, w, signed=(i % 2 == 1)).assign(b[i])
            sr.assign(rdys[0])
            mv.assign(b.valid)
        else:
            q, mvalid, sready = sk.make_skidbuffer(m, clk, rst, ds[0], v, r)
            m.Output('q0', widths[0]).assign(q)
            sr.assign(sready)
            mv.assign(mvalid)
        return m
    return f


def scn(widths, kind='obj', depth=1, cycles=8):
    def sc(c):
        h = c.hw(c.verilog('d', gen(widths, kind, depth)), 'dut')
        ws = [w or 1 for w in widths]
        W = sum(ws)
        h.set('s_valid', 0)
        h.set('m_ready', 0)
        for i in range(len(ws)):
            h.set('d%d' % i, 0)
        h.reset()
        q = Queue(2 * depth + 1, W)
        prev = None
        hist = []
        for s in range(cycles):
            v, r = c.fresh('v%d' % s, 1), c.fresh('r%d' % s, 1)
            ds = [c.fresh('d%d_%d' % (i, s), w) for i, w in enumerate(ws)]
            h.set('s_valid', v)
            h.set('m_ready', r)
            for i, d in enumerate(ds):
                h.set('d%d' % i, d)
            word = ds[0]
            for d in ds[1:]:
                word = t.concat(word, d)
            out = h.get('q0')
            for i in range(1, len(ws)):
                out = t.concat(out, h.get('q%d' % i))
            mv, sr = h.get('m_valid').eq(1), h.get('s_ready').eq(1)
            push, pop = t.and_(v.eq(1), sr), t.and_(r.eq(1), mv)
            c.check('no word out of nothing %d' % s, t.implies(mv, t.not_(q.empty())))
            c.check('the oldest word is presented %d' % s, t.implies(mv, out.eq(q.head())))
            c.check('capacity %d' % s, t.implies(push, t.not_(q.full())))
            if depth == 1:
                c.check('a held word is presented at once %d' % s, t.implies(t.not_(q.empty()), mv))
                c.check('ready unless two words are held %d' % s, t.implies(q.n.ult(const(2, q.cw)), sr))
            if prev is not None:
                pmv, pr, pout = prev
                c.check('stable while refused %d' % s, t.implies(t.and_(pmv, t.not_(pr)), t.and_(mv, out.eq(pout))))
            if s >= 2 * depth:
                # after the sink has been ready for long enough the source is never refused
                c.check('full throughput %d' % s, t.implies(t.conj([x.eq(1) for x in hist[-2 * depth:]] + [r.eq(1)]), sr))
            hist.append(r)
            prev = (mv, r.eq(1), out)
            q.update(push, word, pop)
            h.step()
    return sc


R.add('fn_8', scn([8], 'fn'), bounds='8 cycles')
R.add('fn_1', scn([None], 'fn'), bounds='8 cycles, 1-bit data')
R.add('one', scn([4]), bounds='8 cycles')
R.add('three', scn([4, 3, None]), bounds='8 cycles, fields of 4, 3 and 1 bits')
R.add('mixed', scn([None, 8, 2, 5]), bounds='8 cycles')
R.add('chain2', scn([4, 2], depth=2, cycles=8), bounds='two buffers in series, 8 cycles')
R.add('deep', scn([32, 4, None], cycles=16), tier='thorough', bounds='16 cycles', timeout=900)
R.add('chain3', scn([4, 2], depth=3, cycles=14), tier='thorough', bounds='three buffers in series, 14 cycles', timeout=900)

"""Thread-level FIFO operations: words move exactly once, in order; results and status are truthful."""
from vlib.harness import Registry
from vlib import term as t
from vlib.term import const, ite
from checks.conc import conc

R = Registry('C19', 'model_checking', ['thread/fifo.py', 'types/fifo.py', 'types/util.py', 'thread/ttypes.py', 'thread/compiler.py', 'fsm/fsm.py', 'seq/seq.py', 'types/fixed.py'],
             assumptions=['several threads on one side of a FIFO take turns through its mutex', 'a blocking dequeue is only required to finish when enough words arrive',
                          'stall inputs are released after the free cycles (progress obligations)'],
             explanation='Producer and consumer threads around a generated FIFO, each stalled by a fresh symbolic input in every cycle; received words are folded '
                         'into an order-sensitive accumulator and compared with the words the producer handed over / was told it stored.')


def th(n, body, opts='', pre=''):
    return pre + 'def f%s():\n%s\n' % (n, '\n'.join('    ' + l for l in body.strip('\n').split('\n'))) + \
        'th%s = vthread.Thread(m, "t%s", CLK, RST, f%s, datawidth=16%s)\n_f%s = th%s.start()\n' % (n, n, n, opts, n, n)


def fifo(opts='', cls='FIFO', dw=4, aw=2, name='fifo'):
    return '%s = vthread.%s(m, "%s", CLK, RST, %d, %d%s)\n' % (name, cls, name, dw, aw, opts)


def ind(s):
    return '\n'.join('    ' + l for l in s.strip('\n').split('\n')) + '\n'


P, C = 'while sp:\n    pass\n', 'while sc:\n    pass\n'
RECV = 'acc.value = (acc << 4) | (v & 15)\nn.value += 1\n'


def words(a, k):
    return t.concat(*[a['w%d' % i] for i in range(k)]) if k > 1 else a['w0']


def prod(k, stall=P, f='fifo', enq='enq'):
    return ''.join(stall + '%s.%s(w%d)\n' % (f, enq, i) for i in range(k)) + 'd.value = 1\n'


def cons(k, stall=C, f='fifo'):
    return 'for i in range(%d):\n' % k + ind(stall + 'v = %s.deq()\n' % f + RECV)


def acc_is(k):
    return [('all words arrive once, in order', lambda h, a, st: t.and_(h.get('acc').zx(4 * k).eq(words(a, k)), h.get('n').eq(k))),
            ('the producer finished', lambda h, a, st: h.get('d').eq(1))]


def add(name, src, k, final, free=14, drain=40, outs=None, tier='quick', ins=('sp', 'sc'), args=None, **kw):
    o = {'acc': (4 * max(k, 4), False), 'n': (4, False), 'd': 1}
    o.update(outs or {})
    ar = {'w%d' % i: 4 for i in range(k)}
    ar.update(args or {})
    R.add(name, conc(src, {x: 1 for x in ins}, ar, o, free=free, drain=drain, final=final, **kw), tier=tier, timeout=600,
          bounds='%d symbolic words, all stall patterns over %d cycles' % (k, free))


for aw, k, sync in ((2, 4, True), (1, 3, True), (3, 4, True), (2, 6, True), (2, 4, False), (1, 3, False), (2, 6, False)):
    if aw < 2:
        continue
    add('enq_deq_%d_%d_%s' % (aw, k, 'sync' if sync else 'async'), fifo(', sync=%s' % sync, aw=aw) + th('p', prod(k)) + th('c', cons(k)), k, acc_is(k), free=14 if k < 6 else 12, drain=50)
add('fsm_module', fifo() + th('p', prod(4), ', fsm_as_module=True') + th('c', cons(4), ', fsm_as_module=True'), 4, acc_is(4))
add('producer_loop', fifo() + th('p', 'for i in range(4):\n' + ind(P + 'fifo.enq(w0 + i)\n') + 'd.value = 1\n') + th('c', cons(4)), 1,
    [('all words arrive once, in order', lambda h, a, st: h.get('acc').eq(t.concat(*[a['w0'] + i for i in range(4)])))])
add('consumer_first', fifo() + th('p', prod(2)) + th('c', 'v = fifo.deq()\n' + RECV + 'v = fifo.deq()\n' + RECV), 2, acc_is(2), ins=('sp',))
add('producer_first', fifo() + th('p', prod(5, '')) + th('c', cons(5)), 5, acc_is(5), ins=('sc',))
add('back_to_back', fifo() + th('p', prod(5, '')) + th('c', cons(5, '')), 5, acc_is(5), ins=(), free=0, drain=60)
add('one_thread', fifo() + th('p', P + 'fifo.enq(w0)\n' + P + 'v = fifo.deq()\n' + RECV + 'fifo.enq(w1)\nfifo.enq(w2)\nv = fifo.deq()\n' + RECV + P + 'v = fifo.deq()\n' + RECV + 'd.value = 1\n'),
    3, acc_is(3), ins=('sp',))
add('enq_expr', fifo() + th('p', P + 'x = w0\nfifo.enq(x + 1)\nx = x + 2\nfifo.enq(x)\nx = 0\nd.value = 1\n') + th('c', cons(2)), 1,
    [('values of the expressions at the time of the call', lambda h, a, st: h.get('acc').zx(8).eq(t.concat(a['w0'] + 1, a['w0'] + 2)))])
add('deq_expr', fifo() + th('p', prod(3)) + th('c', C + 'x = (fifo.deq() & 15) * 16 + (fifo.deq() & 15)\n' + C + 'acc.value = x * 16 + (fifo.deq() & 15)\nn.value = 3\n'), 3, acc_is(3))
add('two_fifos', fifo() + fifo(name='ret') + th('p', ''.join(P + 'fifo.enq(w%d)\nv = ret.deq()\n' % i + RECV for i in range(3)) + 'd.value = 1\n') +
    th('c', 'while True:\n' + ind(C + 'v = fifo.deq()\nret.enq(v + 1)\n')), 3,
    [('every reply arrives', lambda h, a, st: t.and_(h.get('acc').zx(12).eq(t.concat(*[a['w%d' % i] + 1 for i in range(3)])), h.get('d').eq(1)))], free=12, drain=50)
add('relay', fifo() + fifo(name='mid') + th('p', prod(3)) + th('r', 'while True:\n' + ind('v = fifo.deq()\nmid.enq(v)\n')) + th('c', cons(3, f='mid')), 3, acc_is(3), drain=50)
add('wide', fifo(dw=16) + th('p', P + 'fifo.enq(wa)\n' + P + 'fifo.enq(wb)\nd.value = 1\n') + th('c', C + 'x.value = fifo.deq()\n' + C + 'y.value = fifo.deq()\n'), 0,
    [('all bits are kept', lambda h, a, st: t.and_(h.get('x').eq(a['wa']), h.get('y').eq(a['wb'])))], args={'wa': 16, 'wb': 16}, outs={'x': 16, 'y': 16})
add('signed', fifo(dw=4) + th('p', P + 'fifo.enq(wa)\n') + th('c', C + 'x.value = fifo.deq()\n'), 0, [('a dequeued word is signed', lambda h, a, st: h.get('x').eq(a['wa'].sx(8)))],
    args={'wa': (4, True)}, outs={'x': 8})
add('signed_expr', fifo(dw=8) + th('p', 'x = wa\n' + P + 'fifo.enq(x >> 1)\n' + P + 'fifo.enq(x - 1 >> 2)\n').replace('datawidth=16', 'datawidth=8') + th('c', C + 'x.value = fifo.deq()\n' + C + 'y.value = fifo.deq()\n'), 0,
    [('the value of the expression is stored', lambda h, a, st: t.and_(h.get('x').eq(t.ashr(a['wa'].sx(8), const(1, 8))), h.get('y').eq(t.ashr(a['wa'].sx(8) - 1, const(2, 8)))))],
    args={'wa': (4, True)}, outs={'x': 8, 'y': 8})
add('signed_wider', fifo(dw=12) + th('p', 'x = wa\n' + P + 'fifo.enq(x)\n' + P + 'fifo.enq(x * 3)\n').replace('datawidth=16', 'datawidth=8') + th('c', C + 'x.value = fifo.deq()\n' + C + 'y.value = fifo.deq()\n'), 0,
    [('the value is stored in the wider word', lambda h, a, st: t.and_(h.get('x').eq(a['wa'].sx(12)), h.get('y').eq(a['wa'].sx(12) * 3)))],
    args={'wa': (4, True)}, outs={'x': 12, 'y': 12})
# two producers / two consumers sharing a side through the fifo's own mutex
add('producers', fifo() + ''.join(th(x, ''.join('while %s:\n    pass\nfifo.lock()\nfifo.enq(w%d)\nfifo.unlock()\n' % (s, i) for i in ws) + 'd%s.value = 1\n' % x) for x, s, ws in (('p', 'sp', (0, 1)), ('q', 'sq', (2, 3)))) +
    th('c', 'for i in range(4):\n' + ind(C + 'v = fifo.deq()\nacc.value = (acc << 4) | (v & 15)\nn.value += 1\n')), 4,
    [('every word arrives once and each producer\'s words in order', lambda h, a, st: t.or_(*[
        h.get('acc').eq(t.concat(*[a['w%d' % i] for i in o])) for o in ((0, 1, 2, 3), (0, 2, 1, 3), (0, 2, 3, 1), (2, 0, 1, 3), (2, 0, 3, 1), (2, 3, 0, 1))])),
     ('both finished', lambda h, a, st: t.and_(h.get('dp').eq(1), h.get('dq').eq(1)))], ins=('sp', 'sq', 'sc'), outs={'dp': 1, 'dq': 1}, free=10, drain=50)
add('consumers', fifo() + th('p', prod(2)) + ''.join(th(x, 'while %s:\n    pass\nfifo.lock()\nv = fifo.deq()\nfifo.unlock()\n%s.value = v\nn%s.value = 1\n' % (s, x, x)) for x, s in (('x', 'sc'), ('y', 'sq'))), 2,
    [('each word is taken by one consumer', lambda h, a, st: t.or_(t.and_(h.get('x').eq(a['w0']), h.get('y').eq(a['w1'])), t.and_(h.get('x').eq(a['w1']), h.get('y').eq(a['w0'])))),
     ('both finished', lambda h, a, st: t.and_(h.get('nx').eq(1), h.get('ny').eq(1)))], ins=('sp', 'sq', 'sc'), outs={'x': (4, False), 'y': (4, False), 'nx': 1, 'ny': 1}, free=10, drain=50)


# ---- non-blocking forms: the sequence of words the producer was told it stored == the sequence the consumer took
def folded(h, a, st):
    return t.and_(h.get('acc').eq(h.get('exp')), h.get('n').eq(h.get('m_')))


TRYP = P + 'if fifo.try_enq(w%d):\n    exp.value = (exp << 4) | w%d\n    m_.value += 1\n'


def tryprod(k, stall=P, form=0):
    s = ''
    for i in range(k):
        if form == 0:
            s += stall + 'if fifo.try_enq(w%d):\n    exp.value = (exp << 4) | w%d\n    m_.value += 1\n' % (i, i)
        else:
            s += stall + 'ok = fifo.try_enq(w%d)\n' % i + stall + 'if ok:\n    exp.value = (exp << 4) | w%d\n    m_.value += 1\n' % i
    return s + 'd.value = 1\n'


TRYC = C + 'v, ok = fifo.try_deq()\nif ok:\n' + ind(RECV)
TO = {'exp': (24, False), 'm_': (4, False), 'acc': (24, False), 'z': (4, False)}
for sync in (True, False):
    s = 'sync' if sync else 'async'
    add('try_enq_' + s, fifo(', sync=%s' % sync) + th('p', tryprod(5)) + th('c', 'while True:\n' + ind(C + 'v = fifo.deq()\n' + RECV)), 5,
        [('what was reported stored arrives, nothing else', folded), ('the producer finished', lambda h, a, st: h.get('d').eq(1))], outs=TO, free=12, drain=40)
    add('try_enq_late_use_' + s, fifo(', sync=%s' % sync) + th('p', tryprod(4, form=1)) + th('c', 'while True:\n' + ind(C + 'v = fifo.deq()\n' + RECV)), 4,
        [('what was reported stored arrives, nothing else', folded), ('the producer finished', lambda h, a, st: h.get('d').eq(1))], outs=TO, free=12, drain=40)
    add('try_deq_' + s, fifo(', sync=%s' % sync) + th('p', prod(4)) + th('c', 'while True:\n' + ind(TRYC)), 4, acc_is(4), free=11, drain=60)
    add('try_both_' + s, fifo(', sync=%s' % sync) + th('p', tryprod(4)) + th('c', 'while True:\n' + ind(TRYC)), 4,
        [('what was reported stored arrives, nothing else', folded), ('the producer finished', lambda h, a, st: h.get('d').eq(1))], outs=TO, free=12, drain=60)
    add('try_enq_full_' + s, fifo(', sync=%s' % sync) + th('p', tryprod(6)) + th('c', 'while not go:\n    pass\nwhile True:\n' + ind('v = fifo.deq()\n' + RECV)), 6,
        [('what was reported stored arrives, nothing else', folded), ('the producer finished', lambda h, a, st: h.get('d').eq(1))], outs=TO, ins=('sp', 'go'), quiet={'go': 1}, free=18, drain=60)
    add('try_deq_empty_' + s, fifo(', sync=%s' % sync) + th('c', ''.join(C + 'v, ok = fifo.try_deq()\nif ok:\n    n.value += 1\n' for _ in range(3)) + 'd.value = 1\n'), 0,
        [('nothing is taken from an empty fifo', lambda h, a, st: t.and_(h.get('n').eq(0), h.get('d').eq(1)))], ins=('sc',), free=8, drain=20)
    add('try_deq_counts_' + s, fifo(', sync=%s' % sync) + th('p', prod(2, '') + 'for i in range(4):\n' + ind(P + 'v, ok = fifo.try_deq()\nif ok:\n' + ind(RECV) + 'else:\n    z.value += 1\n') + 'd.value = 2\n'), 2,
        [('both stored words are taken, the other attempts fail', lambda h, a, st: t.and_(h.get('acc').zx(8).eq(words(a, 2)), h.get('n').eq(2), h.get('z').eq(2), h.get('d').eq(2)))],
        ins=('sp',), outs=dict(TO, d=2), free=8, drain=40)
add('try_enq_first', fifo() + th('p', P + 'if fifo.try_enq(w0):\n    n.value = 1\nv = fifo.deq()\nacc.value = v\n'), 1, [('an empty fifo accepts a word', lambda h, a, st: t.and_(h.get('n').eq(1), h.get('acc').zx(4).eq(a['w0'])))],
    ins=('sp',), free=6, drain=16)
add('try_mix', fifo() + th('p', P + 'fifo.enq(w0)\n' + P + 'exp.value = w0\nm_.value = 1\nif fifo.try_enq(w1):\n    exp.value = (exp << 4) | w1\n    m_.value += 1\n' + P +
                            'fifo.enq(w2)\nexp.value = (exp << 4) | w2\nm_.value += 1\nd.value = 1\n') +
    th('c', 'while True:\n' + ind(C + 'v = fifo.deq()\n' + RECV + TRYC)), 3, [('what was reported stored arrives, nothing else', folded), ('the producer finished', lambda h, a, st: h.get('d').eq(1))],
    outs=TO, free=12, drain=60)
add('try_retry', fifo() + th('p', ''.join('ok = fifo.try_enq(w%d)\nwhile not ok:\n    ok = fifo.try_enq(w%d)\n' % (i, i) + P for i in range(4)) + 'd.value = 1\n') + th('c', cons(4)), 4, acc_is(4), drain=60)
# ---- status
ST = {'e': 1, 'ae': 1, 'f': 1, 'af': 1, 'acc': (16, False)}


def occ(name, k, exp, aw=2, sync=True, takes=0):
    """k words stored, then `takes` removed, then the queries"""
    add(name, fifo(', sync=%s' % sync, aw=aw) + th('p', ''.join('fifo.enq(w%d)\n' % (i % 4) for i in range(k)) + 'v = fifo.deq()\n' * takes + 'while True:\n' + ind(
        P + 'e.value = fifo.is_empty()\n' + P + 'ae.value = fifo.is_almost_empty()\n' + P + 'f.value = fifo.is_full()\n' + P + 'af.value = fifo.is_almost_full()\nn.value = 1\n')), 4,
        [('status with %d words stored and %d removed' % (k, takes), lambda h, a, st: t.and_(h.get('n').eq(1), *[h.get(x).eq(v) for x, v in exp.items()]))], ins=('sp',), outs=ST, free=8, drain=50)


# capacity 2**aw - 1; full == capacity; the blocking enqueue stops at almost full
for sync in (True, False):
    s = '_sync' if sync else '_async'
    occ('status_0' + s, 0, {'e': 1, 'f': 0, 'af': 0, 'ae': 1}, sync=sync)
    occ('status_1' + s, 1, {'e': 0, 'f': 0}, sync=sync)
    occ('status_2' + s, 2, {'e': 0, 'f': 0}, sync=sync)
    occ('status_2_2' + s, 2, {'e': 1, 'f': 0, 'af': 0, 'ae': 1}, sync=sync, takes=2)
    occ('status_2_1' + s, 2, {'e': 0, 'f': 0}, sync=sync, takes=1)
    occ('status_deep_4' + s, 4, {'e': 0, 'f': 0, 'af': 0, 'ae': 0}, sync=sync, aw=3)
    occ('status_deep_6' + s, 6, {'e': 0, 'f': 0, 'af': 1, 'ae': 0}, sync=sync, aw=3)
    occ('status_deep_6_6' + s, 6, {'e': 1, 'f': 0, 'af': 0, 'ae': 1}, sync=sync, aw=3, takes=6)
add('status_wait_empty', fifo() + th('p', prod(2)) + th('c', 'for i in range(2):\n' + ind(C + 'while fifo.is_empty():\n    pass\n' + C + 'v, ok = fifo.try_deq()\nif ok:\n' + ind(RECV))), 2, acc_is(2))
add('status_wait_full', fifo() + th('p', ''.join(P + 'while fifo.is_almost_full():\n    pass\n' + 'if fifo.try_enq(w%d):\n    n.value += 1\n' % i for i in range(4)) + 'd.value = 1\n') +
    th('c', 'while True:\n' + ind(C + 'v = fifo.deq()\nacc.value = (acc << 4) | (v & 15)\n')), 4, acc_is(4), drain=50)
# count / space
CNT = fifo(aw=3) + th('p', prod(4)) + th('c', 'while True:\n' + ind(C + 'v = fifo.deq()\n' + RECV)) + 'm.Assign(m.Output("cnt", 4)(fifo.count))\nm.Assign(m.Output("spc", 4)(fifo.space))\n' + \
    'm.Assign(m.Output("hs", 1)(fifo.has_space()))\nm.Assign(m.Output("hs3", 1)(fifo.has_space(3)))\n'


def cntmon(c, h, a, st, s):
    q = st.setdefault('q', const(0, 4))
    c.check('count is the number of stored words, cycle %d' % s, t.and_(h.get('cnt').eq(q), h.get('spc').eq(const(7, 4) - q)))
    c.check('has_space, cycle %d' % s, t.and_(t.implies(h.get('hs').eq(1), q.ult(7)), t.implies(h.get('hs3').eq(1), q.ult(5))))
    e = t.and_(h.get('fifo_enq').eq(1), h.get('fifo_full').eq(0))
    d = t.and_(h.get('fifo_deq').eq(1), h.get('fifo_empty').eq(0))
    st['q'] = q + ite(e, const(1, 4), const(0, 4)) - ite(d, const(1, 4), const(0, 4))


add('count', CNT, 4, [], free=14, drain=6, monitor=cntmon)
# ---- fixed point
FX = 'import veriloggen.types.fixed as fxd\nfifo = vthread.FixedFIFO(m, "fifo", CLK, RST, datawidth=8, addrwidth=2, point=2%s)\nwx = fxd.FixedReg(m, "wx", 8, point=4, initval=0)\n' + \
    'm.Always(vg.Posedge(CLK))(wx(wc))\n' + \
    'fx = fxd.FixedReg(m, "fx", 8, point=2, initval=0)\n'
for sync in (True, False):
    s = 'sync' if sync else 'async'
    add('fixed_' + s, FX % (', sync=%s' % sync) + th('p', P + 'fifo.enq(wa)\n' + P + 'fifo.enq(wb, raw=True)\n' + P + 'fifo.enq(wx)\n' + P + 'fifo.enq(3.25)\nd.value = 1\n', ', point=4') +
        th('c', C + 'x.value = fifo.deq(raw=True)\n' + C + 'fx.value = fifo.deq()\n' + C + 'u.value = fifo.deq(raw=True)\n' + C + 'z.value = fifo.deq(raw=True)\n', ', point=2'), 0,
        [('an integer is stored with the point of the fifo', lambda h, a, st: h.get('x').eq(t.concat(a['wa'].zx(6), const(0, 2)))),
         ('a raw word is stored unchanged', lambda h, a, st: h.get('fx').eq(a['wb'])), ('a fixed-point value is aligned to the point of the fifo', lambda h, a, st: h.get('u').eq(t.ashr(t.concat(a['wc'][3:0], const(0, 4)), const(2, 8)))), ('a constant keeps its value', lambda h, a, st: h.get('z').eq(13))],
        args={'wa': (8, True), 'wb': (8, True), 'wc': (8, True)}, outs={'x': 8, 'z': 8, 'u': 8}, drain=70)


# ---- external interfaces
def extwrite(cls, opts=''):
    return fifo(', external_write=True%s' % opts, cls, dw=4) + th('c', 'while True:\n' + ind(C + 'v = fifo.deq(%s)\n' % ('raw=True' if cls == 'FixedFIFO' else '') + RECV))


def exw_mon(c, h, a, st, s):
    ok = t.and_(h.get('fifo_enq').eq(1), h.get('fifo_full').eq(0))
    e, k = st.get('e', const(0, 16)), st.get('k', const(0, 4))
    st['e'], st['k'] = ite(ok, t.concat(e[11:0], h.get('fifo_wdata')), e), ite(ok, k + 1, k)


def exw_final():
    return [('every accepted word arrives once, in order', lambda h, a, st: t.and_(h.get('acc').eq(st['e']), h.get('n').eq(st['k'])))]


for cls in ('FIFO', 'FixedFIFO'):
    for sync in (True, False):
        add('ext_write_%s_%s' % (cls, 'sync' if sync else 'async'), extwrite(cls, ', sync=%s' % sync), 0, exw_final(), ins=('sc',), drive={'fifo_enq': 1, 'fifo_wdata': 4}, free=12, drain=30,
            monitor=exw_mon)


def exr_mon(c, h, a, st, s):
    """the outside takes words; with a registered read side the word is there one cycle after the dequeue"""
    e, k = st.get('e', const(0, 16)), st.get('k', const(0, 4))
    d = t.and_(h.get('fifo_deq').eq(1), h.get('fifo_empty').eq(0))
    take = st.get('prev', t.false()) if st['sync'] else d
    st['e'], st['k'] = ite(take, t.concat(e[11:0], h.get('fifo_rdata')), e), ite(take, k + 1, k)
    st['prev'] = d


for cls in ('FIFO', 'FixedFIFO'):
    for sync in (True, False):
        def mon(c, h, a, st, s, sync=sync):
            st['sync'] = sync
            exr_mon(c, h, a, st, s)
        add('ext_read_%s_%s' % (cls, 'sync' if sync else 'async'), fifo(', external_read=True, sync=%s' % sync, cls, dw=4) + th('p', prod(4).replace('fifo.enq(w', 'fifo.enq(raw=True, wdata=w' if cls == 'FixedFIFO' else 'fifo.enq(w')),
            4, [('every word leaves once, in order', lambda h, a, st: t.and_(st['e'].eq(words(a, 4)), st['k'].eq(4))), ('the producer finished', lambda h, a, st: h.get('d').eq(1))], ins=('sp',),
            drive={'fifo_deq': 1}, quiet={'fifo_deq': 1}, free=14, drain=30, monitor=mon)
# the interface connected to native signals
CE = fifo(dw=4) + 'xe = m.Input("xe")\nxd = m.Input("xd", 4)\nxf = m.Output("xf")\nxa = m.Output("xa")\nfifo.connect_enq_rtl(xe, xd, xf, xa)\n'


def ce_mon(c, h, a, st, s):
    ok = t.and_(h.get('xe').eq(1), h.get('xf').eq(0))
    e, k = st.get('e', const(0, 16)), st.get('k', const(0, 4))
    st['e'], st['k'] = ite(ok, t.concat(e[11:0], h.get('xd')), e), ite(ok, k + 1, k)


add('connect_enq', CE + th('c', 'while True:\n' + ind(C + 'v = fifo.deq()\n' + RECV)), 0, exw_final(), ins=('sc',), drive={'xe': 1, 'xd': 4}, free=12, drain=30, monitor=ce_mon)
CD = fifo(dw=4) + 'xq = m.Input("xq")\nxr = m.Output("xr", 4)\nxm = m.Output("xm")\nfifo.connect_deq_rtl(xq, xr, xm)\n'


def cd_mon(c, h, a, st, s):
    e, k = st.get('e', const(0, 16)), st.get('k', const(0, 4))
    take = st.get('prev', t.false())
    st['e'], st['k'] = ite(take, t.concat(e[11:0], h.get('xr')), e), ite(take, k + 1, k)
    st['prev'] = t.and_(h.get('xq').eq(1), h.get('xm').eq(0))


add('connect_deq', CD + th('p', prod(4)), 4, [('every word leaves once, in order', lambda h, a, st: t.and_(st['e'].eq(words(a, 4)), st['k'].eq(4))), ('the producer finished', lambda h, a, st: h.get('d').eq(1))],
    ins=('sp',), drive={'xq': 1}, quiet={'xq': 1}, free=14, drain=30, monitor=cd_mon)


# an external FIFO block: the outside decides full and empty freely, words are taken/presented one cycle later
def extf_mon(c, h, a, st, s):
    e, k, j = st.get('e', const(0, 16)), st.get('k', const(0, 4)), st.get('j', const(0, 4))
    put = t.and_(h.get('fifo_enq').eq(1), h.get('fifo_almost_full').eq(0))
    c.check('no enqueue while almost full, cycle %d' % s, t.implies(h.get('fifo_almost_full').eq(1), h.get('fifo_enq').eq(0)))
    c.check('no dequeue while empty, cycle %d' % s, t.implies(h.get('fifo_empty').eq(1), h.get('fifo_deq').eq(0)))
    st['e'], st['k'] = ite(put, t.concat(e[11:0], h.get('fifo_wdata')), e), ite(put, k + 1, k)
    # rdata of this cycle counts when the word was dequeued in the previous one
    take = st.get('prev', t.false())
    x = st.get('x', const(0, 16))
    st['x'], st['j'] = ite(take, t.concat(x[11:0], h.get('fifo_rdata')), x), ite(take, j + 1, j)
    st['prev'] = t.and_(h.get('fifo_deq').eq(1), h.get('fifo_empty').eq(0))


EXT = 'fifo = vthread.ExtFIFO(m, "fifo", CLK, RST, 4, 2)\n'
add('extfifo_enq', EXT + th('p', prod(4)), 4, [('every word is handed over once, in order', lambda h, a, st: t.and_(st['e'].eq(words(a, 4)), st['k'].eq(4))), ('the producer finished', lambda h, a, st: h.get('d').eq(1))],
    ins=('sp',), drive={'fifo_almost_full': 1, 'fifo_full': 1, 'fifo_empty': 1, 'fifo_rdata': 4}, free=12, drain=30, monitor=extf_mon)
add('extfifo_try', EXT + th('p', tryprod(4)), 4, [('reported successes are what was handed over', lambda h, a, st: t.and_(st['e'].eq(h.get('exp').zx(16)), st['k'].eq(h.get('m_')), h.get('d').eq(1)))],
    ins=('sp',), drive={'fifo_almost_full': 1, 'fifo_full': 1, 'fifo_empty': 1, 'fifo_rdata': 4}, free=12, drain=30, monitor=extf_mon, outs=TO)
add('extfifo_deq', EXT + th('c', cons(3) + 'd.value = 1\n'), 0, [('the words presented are received', lambda h, a, st: t.and_(h.get('acc').zx(12).eq(st['x'].zx(12)), h.get('n').eq(3), st['j'].eq(3), h.get('d').eq(1)))],
    ins=('sc',), drive={'fifo_empty': 1, 'fifo_rdata': 4, 'fifo_almost_full': 1}, free=16, drain=44, monitor=extf_mon)
add('extfifo_try_deq', EXT + th('c', 'for i in range(3):\n' + ind(TRYC) + 'd.value = 1\n'), 0, [('reported successes are what was presented', lambda h, a, st: t.and_(h.get('acc').zx(12).eq(st['x'].zx(12)), h.get('n').eq(st['j']), h.get('d').eq(1)))],
    ins=('sc',), drive={'fifo_empty': 1, 'fifo_rdata': 4, 'fifo_almost_full': 1}, free=16, drain=44, monitor=extf_mon)

"""Mutexes exclude and barriers wait for all."""
import itertools
from vlib.harness import Registry
from vlib import term as t
from vlib.term import const, ite
from checks.conc import conc

R = Registry('C16', 'model_checking', ['thread/ttypes.py', 'thread/thread.py', 'thread/pool.py', 'thread/compiler.py', 'fsm/fsm.py', 'seq/seq.py'],
             assumptions=['a thread does not lock a mutex it holds', 'stall inputs are released after the free cycles (progress obligations)'],
             explanation='Threads contending for mutexes, barriers and shared registers with a fresh symbolic stall input per thread and cycle; exclusion, '
                         'truthful try-lock results, lock-step phases, atomic updates and completion are checked in every cycle / after the drain.')


def th(n, body, pre='', opts='', start=''):
    return 'def f%d():\n%s\n' % (n, '\n'.join('    ' + l for l in body.strip('\n').split('\n'))) + \
        'th%d = vthread.Thread(m, "t%d", CLK, RST, f%d, datawidth=8%s)\n' % (n, n, n, opts) + '_f%d = th%d.start(%s)\n' % (n, n, start)


def stall(i):
    return 'while s%d:\n    pass\n' % i


CRIT = '{st}{lock}in{i}.value = 1\n{st}in{i}.value = 0\n{unlock}n{i}.value += 1\n'


def excl(names, pre='in'):
    def f(h, a, st):
        return t.and_(*[t.not_(t.and_(h.get(pre + x).eq(1), h.get(pre + y).eq(1))) for x, y in itertools.combinations(names, 2)])
    return ('at most one thread inside the region', f)


def done(names, n, pre='n'):
    return [('thread %s completed its %d regions' % (x, n), lambda h, a, st, x=x: h.get(pre + x).eq(n)) for x in names]


def outs(n, *more):
    o = {}
    for i in range(n):
        o['in%d' % i] = 1
        o['n%d' % i] = (8, False)
    for x in more:
        o[x] = (8, False)
    return o


def progs(n, body, mx='mx = vthread.Mutex(m, "mx", CLK, RST)\n', opts=''):
    return mx + ''.join(th(i, body(i), opts=opts) for i in range(n))


def loop(s, k):
    return 'for k in range(%d):\n' % k + '\n'.join('    ' + l for l in s.strip('\n').split('\n'))


def crit(i, lock='mx.lock()\n', unlock='mx.unlock()\n'):
    return CRIT.format(st=stall(i), lock=lock, unlock=unlock, i=i)


def add(name, src, n, inv, final, free=12, drain=30, more=(), tier='quick', **kw):
    ins = {'s%d' % i: 1 for i in range(n) if 's%d' % i in src}
    R.add(name, conc(src, ins, {k: v for k, v in kw.pop('args', {}).items()}, outs(n, *more), free=free, drain=drain, inv=inv, final=final, **kw), tier=tier,
          bounds='%d threads, all stall patterns over %d free cycles' % (n, free), timeout=600)


N = lambda n: [str(i) for i in range(n)]
for n, k, free, drain in ((2, 1, 12, 24), (2, 2, 12, 44), (3, 1, 10, 34), (3, 2, 10, 70)):
    add('mutex_%d_%d' % (n, k), progs(n, lambda i: loop(crit(i), k) if k > 1 else crit(i)), n, [excl(N(n))], done(N(n), k), free=free, drain=drain)
add('mutex_mod', progs(2, crit, opts=', fsm_as_module=True'), 2, [excl(N(2))], done(N(2), 1), drain=24)
add('mutex_alias', progs(2, lambda i: crit(i, 'mx.acquire()\n', 'mx.release()\n'), mx='mx = vthread.Lock(m, "mx", CLK, RST)\n'), 2, [excl(N(2))], done(N(2), 1), drain=24)
add('mutex_narrow', progs(3, crit, mx='mx = vthread.Mutex(m, "mx", CLK, RST, width=2)\n'), 3, [excl(N(3))], done(N(3), 1), drain=34, free=10)
add('mutex_two_sites', progs(2, lambda i: crit(i) + crit(i)), 2, [excl(N(2))], done(N(2), 2), drain=44, free=10)
# try_lock
TRY = '{st}r = mx.try_lock()\nif r:\n    in{i}.value = 1\n{si}    in{i}.value = 0\n    mx.unlock()\n    n{i}.value += 1\nelse:\n    z{i}.value += 1\n'


def trybody(i, lock='mx.try_lock()'):
    return TRY.format(st=stall(i), si=''.join('    ' + l + '\n' for l in stall(i).strip('\n').split('\n')), i=i).replace('mx.try_lock()', lock)


add('try_2', progs(2, trybody), 2, [excl(N(2))], [('every attempt has one outcome', lambda h, a, st: t.and_(*[(h.get('n%d' % i) + h.get('z%d' % i)).eq(1) for i in range(2)])),
                                               ('somebody succeeds', lambda h, a, st: t.or_(h.get('n0').eq(1), h.get('n1').eq(1)))], more=('z0', 'z1'), free=8, drain=18)
add('try_3', progs(3, trybody), 3, [excl(N(3))], [('every attempt has one outcome', lambda h, a, st: t.and_(*[(h.get('n%d' % i) + h.get('z%d' % i)).eq(1) for i in range(3)])),
                                               ('somebody succeeds', lambda h, a, st: t.or_(*[h.get('n%d' % i).eq(1) for i in range(3)]))], more=('z0', 'z1', 'z2'), free=7, drain=20)
add('try_alias', progs(2, lambda i: trybody(i, 'mx.acquire(blocking=False)')), 2, [excl(N(2))],
    [('every attempt has one outcome', lambda h, a, st: t.and_(*[(h.get('n%d' % i) + h.get('z%d' % i)).eq(1) for i in range(2)]))], more=('z0', 'z1'), free=8, drain=18)
add('try_single', progs(1, lambda i: trybody(i)), 1, [], [('an uncontended try-lock succeeds', lambda h, a, st: h.get('n0').eq(1))], more=('z0',))
add('try_vs_lock', 'mx = vthread.Mutex(m, "mx", CLK, RST)\n' + th(0, crit(0)) + th(1, loop(trybody(1), 3)), 2, [excl(N(2))],
    done(N(1), 1) + [('every attempt has one outcome', lambda h, a, st: (h.get('n1') + h.get('z1')).eq(3))], more=('z1',), drain=44)
add('try_spin', progs(2, lambda i: stall(i) + 'r = mx.try_lock()\nwhile not r:\n    r = mx.try_lock()\nin{i}.value = 1\n'.format(i=i) + stall(i) +
                      'in{i}.value = 0\nmx.unlock()\nn{i}.value += 1\n'.format(i=i)), 2, [excl(N(2))], done(N(2), 1), drain=30)


def try_truth(h, a, st):
    """r0/r1 hold the results: the mutex register must name the thread that saw success"""
    return t.and_(*[t.implies(h.get('in%d' % i).eq(1), t.and_(h.get('_mx_lock_reg').eq(1), h.get('_mx_lock_id').eq(i))) for i in range(2)])


def tryheld(h, a, st):
    return t.and_(t.implies(h.get('in0').eq(1), h.get('in1').eq(0)))


# an attempt while the mutex is held fails and changes nothing; unlocking a mutex one does not hold does nothing
add('foreign_unlock', 'mx = vthread.Mutex(m, "mx", CLK, RST)\n' + th(0, crit(0)) + th(1, stall(1) + 'mx.unlock()\nn1.value += 1\n') + th(2, crit(2)), 3,
    [excl(['0', '2'])], done(['0', '2'], 1) + done(['1'], 1), drain=30)
add('foreign_unlock_used', 'mx = vthread.Mutex(m, "mx", CLK, RST)\n' + th(0, crit(0)) + th(1, crit(1) + stall(1) + 'mx.unlock()\nn1.value += 1\n'), 2,
    [excl(N(2))], done(['0'], 1) + done(['1'], 2), drain=34)
add('double_unlock', 'mx = vthread.Mutex(m, "mx", CLK, RST)\n' + th(0, crit(0) + 'mx.unlock()\nmx.unlock()\n') + th(1, crit(1)) + th(2, crit(2)), 3,
    [excl(N(3))], done(N(3), 1), drain=44, free=10)
add('two_mutexes', 'mx = vthread.Mutex(m, "mx", CLK, RST)\nmy = vthread.Mutex(m, "my", CLK, RST)\n' + th(0, crit(0)) + th(1, crit(1, 'mx.lock()\nmy.lock()\n', 'my.unlock()\nmx.unlock()\n')) +
    th(2, crit(2, 'my.lock()\n', 'my.unlock()\n')), 3, [excl(['0', '1']), excl(['1', '2'])], done(N(3), 1), drain=40, free=10)
add('independent', 'mx = vthread.Mutex(m, "mx", CLK, RST)\nmy = vthread.Mutex(m, "my", CLK, RST)\n' + th(0, 'mx.lock()\nn0.value = 1\nwhile True:\n    pass\n') +
    th(1, crit(1, 'my.lock()\n', 'my.unlock()\n')), 2, [], done(N(2), 1), drain=16)
add('held_forever', 'mx = vthread.Mutex(m, "mx", CLK, RST)\n' + th(0, 'mx.lock()\nin0.value = 1\nwhile True:\n    pass\n') + th(1, stall(1) + 'r = mx.try_lock()\nz.value = r\n'
                                                                                                     'n1.value = 1\nmx.lock()\nin1.value = 1\n'), 2,
    [excl(N(2))], [('both ran', lambda h, a, st: h.get('n1').eq(1)), ('one of them holds the mutex', lambda h, a, st: t.or_(h.get('in0').eq(1), h.get('in1').eq(1))),
                   ('a failed try-lock is reported', lambda h, a, st: t.implies(h.get('in0').eq(1), h.get('z').eq(0)))], more=('z',), drain=24)
# shared registers
SH = 'cr = m.Reg("cr", 8, initval=0)\nsh = vthread.Shared(cr)\nm.OutputReg("dummy", initval=0)\n'
shc = lambda h: h.get('cr')
add('shared_own', SH + ''.join(th(i, stall(i) + 'sh.lock()\nv = sh.read()\n' + stall(i) + 'sh.write(v + 1)\nsh.unlock()\nn%d.value += 1\n' % i) for i in range(2)), 2, [],
    done(N(2), 1) + [('no update is lost', lambda h, a, st: shc(h).eq(2))], drain=30)
add('shared_loop', SH + ''.join(th(i, loop(stall(i) + 'sh.lock()\nv = sh.value\nsh.write(v + 1)\nsh.unlock()\nn%d.value += 1\n' % i, 2)) for i in range(2)), 2, [],
    done(N(2), 2) + [('no update is lost', lambda h, a, st: shc(h).eq(4))], drain=50)
add('shared_mutex', SH + 'mx = vthread.Mutex(m, "mx", CLK, RST)\n' + ''.join(th(i, stall(i) + 'mx.lock()\nv = sh.read()\n' + stall(i) + 'sh.write(v + %d)\nmx.unlock()\nn%d.value += 1\n' % (i + 1, i))
                                                                    for i in range(3)), 3, [], done(N(3), 1) + [('no update is lost', lambda h, a, st: shc(h).eq(6))], drain=44, free=10)
add('shared_try', SH + ''.join(th(i, stall(i) + 'if sh.try_lock():\n    v = sh.read()\n    while s%d:\n        pass\n    sh.write(v + 1)\n    sh.unlock()\n    n%d.value += 1\n' % (i, i)) for i in range(2)),
    2, [], [('the register counts the successful attempts', lambda h, a, st: shc(h).eq(h.get('n0') + h.get('n1'))),
            ('somebody succeeds', lambda h, a, st: (h.get('n0') + h.get('n1')).ne(0))], drain=30)


def guarded_write(c, h, a, st, s):
    """the register changes only in a cycle in which the holder is in its region"""
    cr, lk = h.get('cr'), h.get('_' + '_cr_mutex_lock_reg') if h.has('__cr_mutex_lock_reg') else None
    if 'cr' in st:
        ch = t.not_(cr.eq(st['cr']))
        c.check('changes only while held, cycle %d' % s, t.implies(ch, t.or_(st['w0'], st['w1'])))
    st['cr'], st['w0'], st['w1'] = cr, h.get('in0').eq(1), h.get('in1').eq(1)


add('shared_guard', SH + ''.join(th(i, stall(i) + 'sh.lock()\nin{i}.value = 1\nsh.write(p{i})\n'.format(i=i) + stall(i) + 'n{i}.value = sh.read()\nsh.unlock()\nin{i}.value = 0\n'.format(i=i)) for i in range(2)),
    2, [], [('thread %d reads what it wrote' % i, lambda h, a, st, i=i: h.get('n%d' % i).eq(a['p%d' % i])) for i in range(2)], drain=30, args={'p0': 8, 'p1': 8}, monitor=guarded_write)
add('shared_parts', 'cr = m.Reg("cr", 8, initval=0)\nsh = vthread.Shared(cr)\n' + th(0, stall(0) + 'sh.lock()\nsh.write(p0, 3)\nsh.write(p1, (7, 4))\nsh.unlock()\nn0.value = sh.value\n'),
    1, [], [('written part', lambda h, a, st: (h.get('n0') & 0xf8).eq(t.concat(a['p1'], a['p0'], const(0, 3))))], args={'p0': 1, 'p1': 4}, drain=14)
add('shared_part2', 'cr = m.Reg("cr", 8, dims=4, initval=0)\nsh = vthread.Shared(cr)\n' + th(0, stall(0) + 'sh.write(p0, 2)\nsh.write(1, 2, 5)\nn0.value = cr[2]\n'), 1, [],
    [('written word', lambda h, a, st: h.get('n0').eq(a['p0'] | 0x20))], args={'p0': 8}, drain=14)
# own mutexes of RAM and FIFO objects
add('ram_own', 'ram = vthread.RAM(m, "ram", CLK, RST, datawidth=8, addrwidth=2, numports=2)\n' + ''.join(
    th(i, stall(i) + 'ram.lock()\nv = ram.read(1, port=%d)\n' % i + stall(i) + 'ram.write(1, v + 1, port=%d)\nram.unlock()\nn%d.value = 1\n' % (i, i)) for i in range(2)) +
    th(2, 'ram.lock()\n', ) if False else 'ram = vthread.RAM(m, "ram", CLK, RST, datawidth=8, addrwidth=2, numports=2)\n' + ''.join(
    th(i, crit(i, 'ram.lock()\n', 'ram.unlock()\n')) for i in range(2)), 2, [excl(N(2))], done(N(2), 1), drain=24)
add('fifo_own', 'fifo = vthread.FIFO(m, "fifo", CLK, RST, 8, 2)\n' + ''.join(th(i, crit(i, 'fifo.lock()\n', 'fifo.unlock()\n')) for i in range(2)), 2, [excl(N(2))], done(N(2), 1), drain=24)
# barriers


def bar(n, k, free, drain, opts='', tier='quick'):
    src = 'br = vthread.Barrier(m, "br", CLK, RST, %d)\n' % n + ''.join(
        th(i, ('n{i}.value += 1\n{st}br.wait()\nz{i}.value += 1\n' * k if opts == 'flat' else loop(stall(i) + 'n{i}.value += 1\nbr.wait()\nz{i}.value += 1\n', k)).format(i=i, st=stall(i)),
           opts='' if opts == 'flat' else opts) for i in range(n))

    def inv(h, a, st):
        return t.and_(*[h.get('z%d' % i).ule(h.get('n%d' % j)) for i in range(n) for j in range(n)])
    add('barrier_%d_%d%s' % (n, k, '_' + opts.strip(', ').split('=')[0] if opts else ''), src, n, [('no thread passes before all arrived', inv)],
        [('thread %d passed %d times' % (i, k), lambda h, a, st, i=i: h.get('z%d' % i).eq(k)) for i in range(n)], free=free, drain=drain,
        more=['z%d' % i for i in range(n)], tier=tier)


bar(1, 2, 8, 30)
bar(2, 1, 12, 20)
bar(2, 2, 12, 40)
bar(2, 3, 10, 60)
bar(3, 1, 10, 30)
bar(3, 2, 10, 60)
bar(4, 1, 8, 36)
bar(2, 2, 10, 44, 'flat')
bar(2, 2, 10, 44, ', fsm_as_module=True')
bar(5, 1, 6, 44, tier='thorough')
bar(3, 3, 12, 80, tier='thorough')
bar(4, 2, 10, 80, tier='thorough')
for n, k, free, drain in ((4, 1, 10, 50), (3, 3, 14, 100), (2, 4, 16, 90)):
    add('mutex_%d_%d' % (n, k), progs(n, lambda i: loop(crit(i), k) if k > 1 else crit(i)), n, [excl(N(n))], done(N(n), k), free=free, drain=drain, tier='thorough')
# pools
POOLM = '''mx = vthread.Mutex(m, "mx", CLK, RST)
inn = m.OutputReg("inn", 8, initval=0)
cr = m.Reg("cr", 8, initval=0)
sh = vthread.Shared(cr)
def sub(tid):
    while st[tid]:
        pass
    mx.lock()
    v = sh.read()
    while st[tid]:
        pass
    sh.write(v + 1)
    mx.unlock()
def main():
    for tid in range(%d):
        pool.run(tid, tid)
    for tid in range(%d):
        pool.join(tid)
    n0.value = cr
pool = vthread.ThreadPool(m, "pl", CLK, RST, sub, %d, datawidth=8)
th = vthread.Thread(m, "main", CLK, RST, main, datawidth=8)
th.start()
'''
for n in (2, 3):
    R.add('pool_mutex_%d' % n, conc(POOLM % (n, n, n), {'st': n}, {}, {'n0': 8}, free=14, drain=50, final=[('no update is lost', lambda h, a, st, n=n: h.get('n0').eq(n))]),
          bounds='pool of %d threads, all stall patterns over 14 cycles' % n)

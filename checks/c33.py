"""C33: AXI masters obey the bus protocol under every handshake timing."""
from vlib.harness import Registry
from vlib import term as t
from vlib.term import const, ite
from checks.axi import taxi, K
from checks.c32 import prog

R = Registry('C33', 'model_checking', ['thread/axim.py', 'types/axi.py', 'types/skidbuffer.py', 'thread/ram.py', 'thread/fifo.py', 'types/fifo.py', 'thread/compiler.py', 'seq/seq.py', 'fsm/fsm.py'],
             assumptions=['address requests: every start address of 16 bits, every size up to 1023 words (16 for the lowered limits) and every ready pattern in the window, with the data channels of the same transfer blocked',
                          'data channels: transfers of up to 8 words with symbolic ready/valid over windows of 4 to 9 cycles of each channel, prompt outside of the window',
                          'some scenarios lower the class attributes burst_size_width and boundary_size so that splitting happens within few words'],
             explanation='A thread runs transfers of an AXI master against a symbolic slave; monitors of every channel collect requests and beats and assert stability until ready, burst length, 4 KB boundary, '
                         'contiguous addresses, beat count and the position of the last flag.')
NOW = {'ax_awready': 0, 'ax_wready': 0, 'ax_bvalid': 0}
NOR = {'ax_arready': 0, 'ax_rvalid': 0, 'ax_rdata': 0, 'ax_rlast': 0}


def const_pins(ports, dw):
    sz = (dw // 8).bit_length() - 1

    def f(c, h, a, b, M):
        for p, v in ports:
            c.check(p, h.get('ax_' + p).eq(sz if v is None else v))
    return f


def reqs(name, kind, dw=32, aw=16, nb=10, lo=1, hi=None, ram='(8, 3)', cls='AXIM', small=False, win=None, nreq=7, cycles=60, opt='', body=None, words=None, rams=None, base=None, tier='quick', args=None):
    """only the request channel makes progress; a size of n words of the RAM"""
    hi = 2 ** nb - 1 if hi is None else hi
    rd = kind == 'r'
    body = body or ('ax.dma_read_async(ra, 0, ga, n)' if rd else 'ax.dma_write_async(ra, 0, ga, n)')
    words = words or (lambda a: a['n'])
    win = win if win is not None else range(5, 12)

    def mr(c, h, a, b, M):
        st = a['ga'] if base is None else base(a)
        B = dw // 8
        if rd:
            b.covers('AR', b.ar, b.arlen, st, words(a))
            const_pins([('arsize', None), ('arburst', 1), ('arlock', 0)], dw)(c, h, a, b, M)
        else:
            b.covers('AW', b.aw, b.awlen, st, words(a))
            const_pins([('awsize', None), ('awburst', 1), ('awlock', 0)], dw)(c, h, a, b, M)
    A = {'ga': aw, 'n': nb}
    A.update(args or {})
    R.add(name, taxi(prog(body, dw, aw, opt, cls, '', small), rams or {'ra': (dw, 3)}, None, A, {}, bus=dict(rd=rd, wr=not rd, nbeat=2, nreq=nreq, answer=False, never=('w',)), dw=dw,
                     win={'ar' if rd else 'aw': win}, pre=lambda a: [a['n'].uge(lo), a['n'].ule(hi)], boundary=16 if small else 4096, limit=2 if small else 256, more=mr,
                     tie=NOW if rd else NOR, cycles=cycles, done=False, extra=0), tier=tier, bounds='all addresses, sizes and ready patterns in the window', timeout=700)


for dw in (8, 16, 32, 64, 128):
    hi = {128: 600}.get(dw, 1023)
    reqs('read_size_%d' % dw, 'r', dw, hi=hi, nreq={8: 5, 16: 5, 32: 6, 64: 7, 128: 8}[dw], win=())
    reqs('read_split_%d' % dw, 'r', dw, nb=4, hi=9, small=True, nreq=8 if dw < 64 else 10, aw=10)
    reqs('write_size_%d' % dw, 'w', dw, hi=600, aw=13, nreq=4 if dw < 64 else 5, win=(), cycles=30)
    reqs('write_split_%d' % dw, 'w', dw, nb=3, hi=5, small=True, nreq=4 if dw < 64 else 5, aw=8, win=range(5, 9), cycles=36)
# memories with words of another size, several banks, global base address, AXI-Stream-like kinds of requests
for k in 'rw':
    f = 'dma_read' if k == 'r' else 'dma_write'
    o = dict(aw=13, win=(), cycles=30)
    reqs('%s_size_narrow' % f, k, 32, hi=255, nb=8, nreq=4, rams={'ra': (64, 3)}, words=lambda a: a['n'].zx(12) * 2, **o)
    reqs('%s_size_wide' % f, k, 32, hi=1023, nb=10, nreq=4, rams={'ra': (8, 3)}, body='ax.%s_async(ra, 0, ga, n)' % f, words=lambda a: t.extract(a['n'].zx(12) + 3, 11, 2), **o)
    reqs('%s_size_stride' % f, k, 32, hi=600, nreq=4, body='ax.%s_async(ra, 0, ga, n, 3)' % f, **o)
    reqs('%s_size_base' % f, k, 32, hi=600, nreq=4, body='ax.set_global_base_addr(gb); ax.%s_async(ra, 0, ga, n)' % f, opt=', use_global_base_addr=True', args={'gb': 13}, base=lambda a: a['ga'] + a['gb'], **o)
    reqs('%s_size_bank' % f, k, 32, hi=255, nb=8, nreq=4, rams={'ra': (32, 2, dict(cls='MultibankRAM', numbanks=2))}, body='ax.%s_bank_async(ra, 1, 0, ga, n)' % f, **o)
    reqs('%s_size_packed' % f, k, 32, hi=255, nb=8, nreq=4, rams={'ra': (16, 2, dict(cls='MultibankRAM', numbanks=2))}, words=lambda a: t.extract(a['n'].zx(9) + 1, 8, 1), body='ax.%s_packed_async(ra, 0, ga, n)' % f, **o)
    reqs('%s_size_block' % f, k, 32, hi=255, nb=8, nreq=4, rams={'ra': (32, 2, dict(cls='MultibankRAM', numbanks=2))}, body='ax.%s_block_async(ra, 0, ga, n, 2)' % f, **o)
    reqs('%s_size_limit7' % f, k, 32, hi=600, nb=10, nreq=7, body='ax.%s_async(ra, 0, ga, n)' % f, **o)
    reqs('%s_size_mod' % f, k, 32, hi=600, nreq=4, opt=', fsm_as_module=True', **o)
reqs('dma_read_size_bcast', 'r', 32, hi=255, nb=8, nreq=4, rams={'ra': (32, 2, dict(cls='MultibankRAM', numbanks=2))}, body='ax.dma_read_bcast_async(ra, 0, ga, n)', aw=13, win=(), cycles=30)


# data channels: stability, beats, last flags
def data(name, body, kind, nbeat, wins, args=None, rams=None, dw=8, aw=12, opt='', cls='AXIM', small=False, nreq=4, lite=False, cycles=80, pre=None, tier='quick', top=''):
    rd, wr = 'r' in kind, 'w' in kind
    for w, win in wins.items():
        tie = {} if rd and wr else NOW if rd else NOR
        if lite:
            tie = {k: v for k, v in tie.items() if k != 'ax_rlast'}

        def mr(c, h, a, b, M):
            if wr:
                c.check('every write request is answered', t.and_(b.bcnt.eq(b.aw.n), b.wsum.eq(b.W.n)))
            if rd:
                c.check('every requested word is accepted', b.rcnt.eq(b.rsum))
        R.add('%s_%s' % (name, w), taxi(prog(body, dw, aw, opt, cls, top, small), rams if rams is not None else {'ra': (dw, 3)}, None, args or {}, {}, win=win, bus=dict(rd=rd, wr=wr, nbeat=nbeat, nreq=nreq), dw=dw,
                                        tie=tie, lite=lite, cycles=cycles, boundary=16 if small else 4096, limit=2 if small else 256, more=mr, pre=pre, noram=True),
              tier=tier, bounds='all addresses, words and handshakes in the window', timeout=700)


WW = {'aw': {'aw': range(6, 12)}, 'w': {'w': range(9, 17)}, 'all': {'aw': range(7, 10), 'w': range(9, 13), 'b': range(13, 17)}}
WRR = {'ar': {'ar': range(5, 10), 'r': range(9, 12)}, 'r': {'r': range(8, 15)}}
data('word_write', 'ax.write(ga, x); ax.write(gb, x)', 'w', 3, WW, {'ga': 12, 'gb': 12, 'x': 8})
data('word_write_fence', 'ax.write_fence(ga, x); ax.write(gb, x)', 'w', 3, WW, {'ga': 12, 'gb': 12, 'x': 8})
data('word_read', 'x = ax.read(ga); x = ax.read(x)', 'r', 3, WRR, {'ga': 12})
data('dma_write', 'ax.dma_write(ra, 1, ga, 4)', 'w', 5, WW, {'ga': 12})
data('dma_write_near', 'ax.dma_write(ra, 1, 4092 + o, 3)', 'w', 4, WW, {'o': 2}, dw=8, aw=13)
data('dma_write_near32', 'ax.dma_write(ra, 1, 4080 + o, 4)', 'w', 5, WW, {'o': 4}, dw=32, aw=13)
data('dma_write_twice', 'ax.dma_write_async(ra, 1, ga, 2); ax.dma_write_async(ra, 2, gb, 1); ax.dma_wait_write()', 'w', 4, WW, {'ga': 12, 'gb': 12})
data('dma_write_split', 'ax.dma_write(ra, 1, ga, 4)', 'w', 5, {'aw': WW['aw'], 'all': {'aw': range(7, 9), 'w': range(10, 13)}}, {'ga': 5}, small=True, nreq=5)
data('dma_write_var', 'ax.dma_write(ra, 1, ga, n)', 'w', 5, {'-': {}, 'w': {'w': range(9, 12)}}, {'ga': 5, 'n': 3}, small=True, nreq=5, pre=lambda a: [a['n'].uge(1), a['n'].ule(4)])
data('dma_write_narrow', 'ax.dma_write(ra, 1, ga, 2)', 'w', 5, WW, {'ga': 12}, rams={'ra': (16, 3)})
data('dma_write_wide', 'ax.dma_write(ra, 1, ga, 6)', 'w', 4, WW, {'ga': 12}, dw=16, rams={'ra': (8, 3)})
data('dma_write_block', 'ax.dma_write_block(ra, 0, ga, 4, 2)', 'w', 5, WW, {'ga': 12}, rams={'ra': (8, 2, dict(cls='MultibankRAM', numbanks=2))})
data('dma_write_packed', 'ax.dma_write_packed(ra, 0, ga, 3)', 'w', 5, WW, {'ga': 12}, dw=16, rams={'ra': (8, 2, dict(cls='MultibankRAM', numbanks=2))})
data('dma_write_bank', 'ax.dma_write_bank(ra, 1, 0, ga, 3)', 'w', 5, WW, {'ga': 12}, rams={'ra': (8, 2, dict(cls='MultibankRAM', numbanks=2))})
data('dma_write_sb3', 'ax.dma_write(ra, 1, ga, 4)', 'w', 5, WW, {'ga': 12}, opt=', sb_depth=3')
data('dma_write_sb0', 'ax.dma_write(ra, 1, ga, 4)', 'w', 5, WW, {'ga': 12}, opt=', sb_depth=2')
data('dma_write_mix', 'ax.write(ga, 3); ax.dma_write_async(ra, 1, ga, 2); ax.write(gb, 4); ax.dma_wait_write()', 'w', 5, WW, {'ga': 12, 'gb': 12})
data('dma_read', 'ax.dma_read(ra, 1, ga, 4)', 'r', 5, WRR, {'ga': 12})
data('dma_read_split', 'ax.dma_read(ra, 1, ga, 4)', 'r', 5, WRR, {'ga': 5}, small=True, nreq=5)
data('dma_read_twice', 'ax.dma_read_async(ra, 1, ga, 2); ax.dma_read_async(ra, 2, gb, 1); ax.dma_wait_read()', 'r', 4, WRR, {'ga': 12, 'gb': 12})
data('both_word', 'ax.write(ga, x); y = ax.read(ga); ax.write(gb, y)', 'rw', 4, {'all': {'aw': range(6, 8), 'w': range(8, 11), 'ar': range(9, 12), 'r': range(12, 14)}}, {'ga': 12, 'gb': 12, 'x': 8})
data('both_dma', 'ax.dma_write_async(ra, 1, ga, 3); ax.dma_read_async(rb, 1, gb, 3); ax.dma_wait()', 'rw', 5, {'w': {'aw': range(7, 10), 'w': range(9, 13)}, 'r': {'ar': range(7, 12), 'r': range(11, 14)}}, {'ga': 12, 'gb': 12}, rams={'ra': (8, 3), 'rb': (8, 3)})
data('lite_write', 'ax.write(ga, x); ax.write(gb, x)', 'w', 3, WW, {'ga': 12, 'gb': 12, 'x': 8}, cls='AXIMLite', lite=True)
data('lite_read', 'x = ax.read(ga); x = ax.read(x)', 'r', 3, WRR, {'ga': 12}, cls='AXIMLite', lite=True)
data('lite_both', 'ax.write(ga, x); y = ax.read(ga); ax.write(gb, y)', 'rw', 4, {'all': {'aw': range(6, 8), 'w': range(8, 11), 'ar': range(9, 12), 'r': range(12, 14)}}, {'ga': 12, 'gb': 12, 'x': 8}, cls='AXIMLite', lite=True)

"""Thread RAM accesses and bank interleaving address the right word."""
from vlib.harness import Registry
from vlib import term as t
from vlib.term import const, ite
from vlib import symint
from vlib.symint import SymInt
from checks.thlib import Prog, norm, term
from checks.conc import conc

R = Registry('C21', 'model_checking', ['thread/ram.py', 'thread/util.py', 'types/ram.py', 'types/util.py', 'types/fixed.py', 'thread/compiler.py', 'thread/fixed.py'],
             assumptions=['two threads use different ports or a mutex', 'indices lie inside the RAM', 'interleaved access needs a power-of-two number of banks'],
             explanation='Thread programs on RAM objects run as generated hardware and natively in CPython on an array model with symbolic initial contents, '
                         'addresses and data; final values and final memory contents must agree.')


class Mem(object):
    """array model used by the native run"""

    def __init__(self, words, w, signed=True):
        self.words, self.w = list(words), w

    def sel(self, i):
        i = norm(i)
        if i.is_const() if hasattr(i, 'is_const') else False:
            pass
        return i.ext(16)

    def read(self, addr, port=0, **kw):
        a = self.sel(addr)
        v = self.words[0]
        for k, x in enumerate(self.words):
            v = ite(a.eq(k), x, v)
        return SymInt(v)

    def write(self, addr, data, port=0, **kw):
        a, d = self.sel(addr), norm(data).ext(self.w)
        self.words = [ite(a.eq(k), d, x) for k, x in enumerate(self.words)]
        return 0

    def lock(self):
        return 1
    unlock = try_lock = lock


class Bank(object):
    """interleaved view on bank memories"""

    def __init__(self, banks):
        self.banks = banks
        self.n = len(banks)

    def __getitem__(self, i):
        return self.banks[i]

    def read_bank(self, b, addr, port=0):
        b = norm(b).ext(16)
        v = self.banks[0].read(addr).ext(self.banks[0].w)
        for k, m in enumerate(self.banks):
            v = ite(b.eq(k), m.read(addr).ext(m.w), v)
        return SymInt(v)

    def write_bank(self, b, addr, data, port=0):
        b = norm(b).ext(16)
        for k, m in enumerate(self.banks):
            old = list(m.words)
            m.write(addr, data)
            m.words = [ite(b.eq(k), x, y) for x, y in zip(m.words, old)]
        return 0

    def split(self, i):
        i = norm(i).ext(16)
        sh = self.n.bit_length() - 1
        return SymInt(i & (self.n - 1)), SymInt(t.lshr(i, const(sh, 16)))

    def read(self, i, port=0):
        b, a = self.split(i)
        return self.read_bank(b, a)

    def write(self, i, d, port=0):
        b, a = self.split(i)
        return self.write_bank(b, a, d)


def scn(body, rams, mk, ins=('a', 'b', 'd', 'e'), W=8, iw=None, outs=('o0', 'o1', 'o2'), model=None, steps=120, pre=None, dw=8, post=None):
    """rams: {instance path of the memory: words}; mk: hardware construction; model(mems) -> native environment"""
    src = 'def prog(%s):\n' % ', '.join(ins) + '\n'.join('    ' + l for l in body.strip('\n').split('\n')) + '\n'
    ins_ = tuple(n for n in ins)
    p = Prog(src, ins=ins_, outs=outs, W=W, iw=iw or {'a': (2, False), 'b': (2, False), 'd': dw, 'e': dw}, start=mk + '\n_fsm = _th.start(*_args)\n')

    def sc(c):
        box = c.built('info', dict)
        txt = c.verilog('d', lambda: p.gen(box))
        h = c.hw(txt, 'dut', autosplit=True)
        symint.set_ctx(c)
        SymInt.LIMIT = p.W
        vals = []
        for n in p.ins:
            w, s = p.iwid(n)
            v = c.fresh(n, w)
            h.set(n, v)
            vals.append(SymInt(v if s else v.zx(w + 1)))
        if pre is not None:
            pre(c, *vals)
        h.reset()
        mems = {r: Mem([h.get(r, k) for k in range(n)], dw) for r, n in rams.items()}
        p.env = model(mems) if model else {'ram': list(mems.values())[0]}
        outs_, tr, prints = p.native(c, vals)
        p.env = {}
        for s in range(steps):
            st = h.get('th')
            if st.op == 'const' and t.sval(st) == box['end']:
                break
            h.step()
        c.check('the thread finishes', h.get('th').eq(box['end']))
        for n in p.outs:
            c.check('%s after the program' % n, h.get(n).eq(outs_[n]))
        h.step()
        for r, m in mems.items():
            for k, v in enumerate(m.words):
                c.check('word %d of %s after the program' % (k, r), h.get(r, k).eq(v))
    return sc


def add(name, body, rams=None, mk=None, tier='quick', bounds='', **kw):
    mk = mk or 'ram = vthread.RAM(m, "ram", CLK, RST, datawidth=8, addrwidth=2)'
    if 'ram' not in mk.split('=')[0]:
        raise ValueError(mk)
    R.add(name, scn(body, rams or {'inst_ram.mem': 4}, mk, **kw), tier=tier, bounds=bounds or 'all addresses, data and initial contents')


RAM2 = 'ram = vthread.RAM(m, "ram", CLK, RST, datawidth=8, addrwidth=2, numports=2)'
add('rw', 'ram.write(a, d)\no0.value = ram.read(a)\no1.value = ram.read(b)')
add('rw2', 'ram.write(a, d)\nram.write(b, e)\no0.value = ram.read(a)\no1.value = ram.read(b)\no2.value = ram.read(a + 0)')
add('read_only', 'o0.value = ram.read(a)\no1.value = ram.read(b)\no2.value = ram.read(3)')
add('back_to_back', 'x = ram.read(a) + ram.read(b)\nram.write(a, x)\no0.value = x\no1.value = ram.read(b) - ram.read(a)')
add('copy_word', 'ram.write(b, ram.read(a))\no0.value = ram.read(b)')
add('swap', 'x = ram.read(a)\ny = ram.read(b)\nram.write(a, y)\nram.write(b, x)\no0.value = x')
add('rmw', 'ram.write(a, ram.read(a) + d)\nram.write(a, ram.read(a) + e)\no0.value = ram.read(a)')
add('loop_fill', 'for i in range(4):\n    ram.write(i, d + i)\ns = 0\nfor i in range(4):\n    s = s * 3 + ram.read(i)\no0.value = s', steps=200)
add('loop_acc', 's = 0\nfor i in range(4):\n    s += ram.read(i)\no0.value = s', steps=200)
add('loop_rev', 'for i in range(4):\n    ram.write(3 - i, d + i)\no0.value = ram.read(a)', steps=200)
add('cond', 'if d > e:\n    ram.write(a, d)\nelse:\n    ram.write(b, e)\no0.value = ram.read(b)')
add('read_cond', 'if ram.read(a) > ram.read(b):\n    o0.value = 1\nelif ram.read(a) == d:\n    o0.value = 2\nelse:\n    o0.value = 3')
add('read_while', 'n = 0\nwhile n < 3 and ram.read(n) != d:\n    n += 1\no0.value = n')
add('read_index', 'o0.value = ram.read(ram.read(a) & 3)\nram.write(ram.read(b) & 3, d)')
add('expr_args', 'ram.write((a + b) & 3, d - e)\no0.value = ram.read((a ^ b) & 3)')
add('ports', 'ram.write(a, d, port=1)\no0.value = ram.read(a, port=0)\nram.write(b, e)\no1.value = ram.read(b, 1)\no2.value = ram.read(a, 1)', mk=RAM2)
add('ports3', 'ram.write(a, d, 2)\no0.value = ram.read(a, 1)\nram.write(b, e, 0)\no1.value = ram.read(b, 2)', mk=RAM2.replace('numports=2', 'numports=3'))
add('signed', 'x = d\ny = e\nram.write(a, x >> 1)\no0.value = ram.read(a)\nram.write(b, y - x >> 2)\no1.value = ram.read(b)', iw={'a': (2, False), 'b': (2, False), 'd': (7, True), 'e': (7, True)})
add('signed_wider', 'x = d\nram.write(a, x)\nram.write(b, x * 3)\no0.value = ram.read(b) >> 5', mk='ram = vthread.RAM(m, "ram", CLK, RST, datawidth=12, addrwidth=2)', dw=12,
    iw={'a': (2, False), 'b': (2, False), 'd': (5, True), 'e': 8})
add('narrow', 'ram.write(a, d)\no0.value = ram.read(a)\no1.value = ram.read(b)', mk='ram = vthread.RAM(m, "ram", CLK, RST, datawidth=4, addrwidth=2)', dw=4, iw={'a': (2, False), 'b': (2, False), 'd': 4, 'e': 4})
add('narrow_trunc', 'ram.write(a, d)\no0.value = ram.read(a)', mk='ram = vthread.RAM(m, "ram", CLK, RST, datawidth=4, addrwidth=2)', dw=4, iw={'a': (2, False), 'b': (2, False), 'd': 8, 'e': 8})
add('wide', 'ram.write(a, d)\nram.write(b, ram.read(b) + 1)\no0.value = ram.read(a)', mk='ram = vthread.RAM(m, "ram", CLK, RST, datawidth=12, addrwidth=2)', dw=12,
    iw={'a': (2, False), 'b': (2, False), 'd': 12, 'e': 4}, W=12)
add('big', 'ram.write(a, d)\no0.value = ram.read(a)\no1.value = ram.read(b)', {'inst_ram.mem': 16}, 'ram = vthread.RAM(m, "ram", CLK, RST, datawidth=8, addrwidth=4)',
    iw={'a': (4, False), 'b': (4, False), 'd': 8, 'e': 8})
add('two_rams', 'ram.write(a, d)\nramb.write(a, e)\no0.value = ram.read(a) - ramb.read(b)', {'inst_ram.mem': 4, 'inst_rb.mem': 4},
    'ram = vthread.RAM(m, "ram", CLK, RST, datawidth=8, addrwidth=2)\nramb = vthread.RAM(m, "rb", CLK, RST, datawidth=8, addrwidth=2)',
    model=lambda ms: {'ram': ms['inst_ram.mem'], 'ramb': ms['inst_rb.mem']})
add('pass_ram', 'o0.value = f(ram, a) + f(ramb, b)', {'inst_ram.mem': 4, 'inst_rb.mem': 4},
    'ram = vthread.RAM(m, "ram", CLK, RST, datawidth=8, addrwidth=2)\nramb = vthread.RAM(m, "rb", CLK, RST, datawidth=8, addrwidth=2)\n_th.add_function(f)',
    model=lambda ms: {'ram': ms['inst_ram.mem'], 'ramb': ms['inst_rb.mem']}) if False else None
# ------------------------------------------------------------------ multibank
MB = 'ram = vthread.MultibankRAM(m, "ram", CLK, RST, datawidth=8, addrwidth=1, numbanks=%d, numports=%d)'


def mb(n, aw=1):
    return {'inst_ram_%d.mem' % i: 2 ** aw for i in range(n)}


def mbm(n):
    return lambda ms: {'ram': Bank([ms['inst_ram_%d.mem' % i] for i in range(n)])}


for n in (2, 4):
    iw = {'a': (n.bit_length(), False), 'b': (n.bit_length(), False), 'd': 8, 'e': 8}
    for nm, body in (('rw', 'ram.write(a, d)\no0.value = ram.read(a)\no1.value = ram.read(b)'),
                     ('rw2', 'ram.write(a, d)\nram.write(b, e)\no0.value = ram.read(a)\no1.value = ram.read(b)'),
                     ('mix', 'x = ram.read(a)\nram.write(b, x + 1)\no0.value = ram.read(b) - ram.read(a)'),
                     ('bank', 'ram.write_bank(a & %d, b & 1, d)\no0.value = ram.read_bank(a & %d, b & 1)\no1.value = ram.read(a)' % (n - 1, n - 1)),
                     ('bank_const', 'ram.write_bank(1, b & 1, d)\no0.value = ram.read_bank(0, b & 1)\no1.value = ram.read(b)\no2.value = ram.read_bank(%d, 1)' % (n - 1)),
                     ('loop', 'for i in range(%d):\n    ram.write(i, d + i)\no0.value = ram.read(a)\no1.value = ram.read_bank(b & 1, a & 1)' % (2 * n)),
                     ('sub', 'ram[1].write(b & 1, d)\no0.value = ram.read(b)\no1.value = ram[0].read(a & 1)')):
        add('mb%d_%s' % (n, nm), body, mb(n), MB % (n, 1), model=mbm(n), iw=iw, steps=200)
    add('mb%d_ports' % n, 'ram.write(a, d, port=1)\no0.value = ram.read(a, port=0)\nram.write(b, e)\no1.value = ram.read(b, port=1)', mb(n), MB % (n, 2), model=mbm(n), iw=iw)
    add('mb%d_bank_ports' % n, 'ram.write_bank(a & 1, b & 1, d, port=1)\no0.value = ram.read_bank(a & 1, b & 1, port=1)\no1.value = ram.read_bank(1, a & 1)', mb(n), MB % (n, 2), model=mbm(n), iw=iw)
add('mb3_bank', 'x = a\nif x == 3:\n    x = 0\nram.write_bank(x, b & 1, d)\no0.value = ram.read_bank(x, b & 1)\no1.value = ram.read_bank(2, b & 1)', mb(3), MB % (3, 1), model=mbm(3))
add('mb2_deep', 'ram.write(a, d)\no0.value = ram.read(b)\no1.value = ram.read_bank(a & 1, b & 3)', mb(2, 2), MB.replace('addrwidth=1', 'addrwidth=2') % (2, 1), model=mbm(2),
    iw={'a': (3, False), 'b': (3, False), 'd': 8, 'e': 8})
TMB = '''r0 = vthread.RAM(m, "r0", CLK, RST, datawidth=8, addrwidth=1)
r1 = vthread.RAM(m, "r1", CLK, RST, datawidth=8, addrwidth=1)
ram = vthread.to_multibank_ram([r0, r1])'''.replace('r0 = v', 'ram_ = 0\nr0 = v')
R.add('to_multibank', scn('ram.write(a, d)\no0.value = ram.read(b)\no1.value = r1.read(a & 1)\nr0.write(b & 1, e)\no2.value = ram.read(b)', {'inst_r0.mem': 2, 'inst_r1.mem': 2}, TMB,
                          model=lambda ms: {'ram': Bank([ms['inst_r0.mem'], ms['inst_r1.mem']]), 'r0': ms['inst_r0.mem'], 'r1': ms['inst_r1.mem']}),
      bounds='all addresses, data and initial contents')
NMB = '''q0 = vthread.MultibankRAM(m, "q0", CLK, RST, datawidth=8, addrwidth=1, numbanks=2)
q1 = vthread.MultibankRAM(m, "q1", CLK, RST, datawidth=8, addrwidth=1, numbanks=2)
ram = vthread.to_multibank_ram([q0, q1], keep_hierarchy=%s)'''
QM = {'inst_q%d_%d.mem' % (i, j): 2 for i in range(2) for j in range(2)}
for keep in (False, True):
    def nmodel(ms, keep=keep):
        q = [[ms['inst_q%d_%d.mem' % (i, j)] for j in range(2)] for i in range(2)]
        if keep:
            return {'ram': Bank([HB(q[0]), HB(q[1])]), 'q0': Bank(q[0]), 'q1': Bank(q[1])}
        return {'ram': Bank(q[0] + q[1]), 'q0': Bank(q[0]), 'q1': Bank(q[1])}
    R.add('nested_multibank_%d' % keep, scn('ram.write(a, d)\no0.value = ram.read(b)\no1.value = q1.read(a & 3)\nq0.write(b & 3, e)\no2.value = ram.read(b)', QM, NMB % keep, model=nmodel,
                                            iw={'a': (3, False), 'b': (3, False), 'd': 8, 'e': 8}), bounds='all addresses, data and initial contents')


class HB(object):
    """a bank that is itself interleaved: behaves like one memory"""

    def __init__(self, banks):
        self.b = Bank(banks)
        self.w = banks[0].w

    def read(self, addr, port=0):
        return self.b.read(addr)

    def write(self, addr, data, port=0):
        return self.b.write(addr, data)

    @property
    def words(self):
        return [x for m in self.b.banks for x in m.words]

    @words.setter
    def words(self, ws):
        ws = list(ws)
        for m in self.b.banks:
            m.words, ws = ws[:len(m.words)], ws[len(m.words):]


# ---------------------------------------------------------------- fixed point
class FixMem(Mem):
    def __init__(self, base, point):
        self.__dict__ = base.__dict__
        self.point = point

    def write(self, addr, data, port=0, raw=False, **kw):
        return Mem.write(self, addr, data)


# ---- initial contents, fixed point, external RAM, native connections, two threads
from checks.conc import conc


def kadd(name, src, args, outs, final, ins=None, free=0, drain=40, tier='quick', bounds='all argument values', **kw):
    R.add(name, conc(src, ins, args, outs, free=free, drain=drain, final=final, **kw), tier=tier, bounds=bounds)


def thr(n, b, opts='', dw=8):
    return 'def f%s():\n%s\nth%s = vthread.Thread(m, "t%s", CLK, RST, f%s, datawidth=%d%s)\n_f%s = th%s.start()\n' % (n, '\n'.join('    ' + l for l in b.strip('\n').split('\n')), n, n, n, dw, opts, n, n)


def tab(vals, a, w=8):
    v = const(vals[0], w)
    for i, x in enumerate(vals):
        v = ite(a.eq(i), const(x, w), v)
    return v


IV = [17, 3, 200, 94]
kadd('initvals', 'ram = vthread.RAM(m, "ram", CLK, RST, datawidth=8, addrwidth=2, numports=2, initvals=%r)\n' % IV + thr('p', 'o0.value = ram.read(a)\nram.write(b, d)\no1.value = ram.read(a, 1)\no2.value = 1\n'),
     {'a': 2, 'b': 2, 'd': 8}, {'o0': (8, False), 'o1': (8, False), 'o2': 1},
     [('the initial word', lambda h, a, st: h.get('o0').eq(tab(IV, a['a']))),
      ('the initial or written word', lambda h, a, st: t.and_(h.get('o2').eq(1), h.get('o1').eq(ite(a['a'].eq(a['b']), a['d'], tab(IV, a['a'])))))], before=lambda c, h: c.assume(h.get('tp').eq(0)))
IVF = [0.5, -2.25, 3.75, -0.25]
FXR = 'import veriloggen.types.fixed as fxd\nram = vthread.FixedRAM(m, "ram", CLK, RST, datawidth=8, addrwidth=2, point=%d%s)\nfx = fxd.FixedReg(m, "fx", 8, point=%d, initval=0)\nfy = fxd.FixedReg(m, "fy", 8, point=%d, initval=0)\n' + \
    'wx = fxd.FixedReg(m, "wx", 8, point=%d, initval=0)\nm.Always(vg.Posedge(CLK))(wx.write(d, raw=True) if False else vg.Subst(wx, d, blk=False))\n'


def mulw(v, sh):
    return [int(x * 2 ** sh) & 255 for x in v]


kadd('fixed_initvals', FXR % (2, ', initvals=%r' % IVF, 2, 2, 2) + thr('p', 'o0.value = ram.read(a, raw=True)\nfx.value = ram.read(a)\no2.value = 1\n', ', point=2'), {'a': 2, 'd': (8, True)}, {'o0': (8, False), 'o2': 1},
     [('the initial value at the point of the ram', lambda h, a, st: t.and_(h.get('o0').eq(tab(mulw(IVF, 2), a['a'])), h.get('fx').eq(h.get('o0')), h.get('o2').eq(1)))], before=lambda c, h: c.assume(h.get('tp').eq(0)))
for wp in (0, 1, 2, 3, 5):
    def exp(d, wp=wp):
        v = d.sx(16)
        return (t.ashr(v, const(wp - 2, 16)) if wp > 2 else t.shl(v, const(2 - wp, 16))).zx(8)
    kadd('fixed_write_%d' % wp, FXR % (2, '', 2, 2, wp) + thr('p', 'ram.write(a, wx)\no0.value = ram.read(a, raw=True)\nfx.value = ram.read(a)\nram.write(b, wx, raw=True)\no1.value = ram.read(b, raw=True)\no2.value = 1\n',
                                                          ', point=2'), {'a': 2, 'b': 2, 'd': (8, True)}, {'o0': (8, False), 'o1': (8, False), 'o2': 1},
         [('the value aligned to the point of the ram', lambda h, a, st, exp=exp: t.and_(h.get('o0').eq(exp(a['d'])), h.get('fx').eq(h.get('o0')), h.get('o2').eq(1))),
          ('a raw word is unchanged', lambda h, a, st: h.get('o1').eq(a['d']))])
kadd('fixed_int_const', FXR % (3, '', 3, 3, 3) + thr('p', 'ram.write(a, d)\no0.value = ram.read(a, raw=True)\nram.write(b, -1.375)\no1.value = ram.read(b, raw=True)\no2.value = 1\n', ', point=3'),
     {'a': 2, 'b': 2, 'd': (8, True)}, {'o0': (8, False), 'o1': (8, False), 'o2': 1},
     [('an integer is scaled', lambda h, a, st: t.and_(h.get('o0').eq(t.shl(a['d'], const(3, 8))), h.get('o2').eq(1))), ('a constant is scaled', lambda h, a, st: h.get('o1').eq(-11 & 255))])


# an external RAM: the scenario is the memory
def extram(n=1):
    def mon(c, h, a, st, s):
        if 'm' not in st:
            st['m'] = [c.fresh('m%d' % k, 8) for k in range(4)]
            st['m0'] = list(st['m'])
            st['r'] = [const(0, 8)] * n
        for p in range(n):
            h.set('ram_%d_rdata' % p, st['r'][p])
        en = [h.get('ram_%d_enable' % p).eq(1) for p in range(n)]
        we = [t.and_(en[p], h.get('ram_%d_wenable' % p).eq(1)) for p in range(n)]
        ad = [h.get('ram_%d_addr' % p) for p in range(n)]
        wd = [h.get('ram_%d_wdata' % p) for p in range(n)]
        old = st['m']
        for p in range(n):
            c.check('write enable implies enable, port %d, cycle %d' % (p, s), t.implies(h.get('ram_%d_wenable' % p).eq(1), en[p]))
            r = old[0]
            for k in range(4):
                r = ite(ad[p].eq(k), old[k], r)
            st['r'][p] = ite(en[p], ite(we[p], c.fresh('rd%d_%d' % (p, s), 8), r), c.fresh('rx%d_%d' % (p, s), 8))
        for p in range(n):
            st['m'] = [ite(t.and_(we[p], ad[p].eq(k)), wd[p], x) for k, x in enumerate(st['m'])]
    return mon


def ld(m, a):
    v = m[0]
    for k, x in enumerate(m):
        v = ite(a.eq(k), x, v)
    return v


def stw(m, a, d):
    return [ite(a.eq(k), d, x) for k, x in enumerate(m)]


ER = 'ram = vthread.ExtRAM(m, "ram", CLK, RST, datawidth=8, addrwidth=2, numports=%d)\n'
AD = {'a': 2, 'b': 2, 'd': 8}
kadd('extram', ER % 1 + thr('p', 'o0.value = ram.read(a)\nwhile s:\n    pass\nram.write(b, d)\nwhile s:\n    pass\no1.value = ram.read(a)\no2.value = 1\n'), AD, {'o0': (8, False), 'o1': (8, False), 'o2': 1},
     [('reads see the memory', lambda h, a, st: t.and_(h.get('o0').eq(ld(st['m0'], a['a'])), h.get('o1').eq(ld(stw(st['m0'], a['b'], a['d']), a['a'])), h.get('o2').eq(1))),
      ('the memory holds the written word only', lambda h, a, st: t.and_(*[x.eq(y) for x, y in zip(st['m'], stw(st['m0'], a['b'], a['d']))]))],
     ins={'s': 1}, free=10, drain=20, monitor=extram(1), drive={'ram_0_rdata': 8}, bounds='all addresses, data, contents, stall patterns; rdata arbitrary when no read is due')
kadd('extram2', ER % 2 + thr('p', 'ram.write(b, d, port=1)\no0.value = ram.read(a, port=0)\nram.write(a, d + 1)\no1.value = ram.read(b, 1)\no2.value = 1\n'), AD, {'o0': (8, False), 'o1': (8, False), 'o2': 1},
     [('reads see the memory', lambda h, a, st: t.and_(h.get('o0').eq(ld(stw(st['m0'], a['b'], a['d']), a['a'])),
                                                       h.get('o1').eq(ld(stw(stw(st['m0'], a['b'], a['d']), a['a'], a['d'] + 1), a['b'])), h.get('o2').eq(1)))],
     drain=30, monitor=extram(2), drive={'ram_0_rdata': 8, 'ram_1_rdata': 8})
# ports driven from outside / from native signals, next to a thread on the other port
EXP = 'ram = vthread.RAM(m, "ram", CLK, RST, datawidth=8, addrwidth=2, numports=2, external_ports=(1,))\n'
CON = 'ram = vthread.RAM(m, "ram", CLK, RST, datawidth=8, addrwidth=2, numports=2)\nxa = m.Input("xa", 2)\nxd = m.Input("xd", 8)\nxw = m.Input("xw")\nxe = m.Input("xe")\nxr = m.Output("xr", 8)\nram.connect_rtl(1, xa, xd, xw, xr, xe)\n'
RTL = 'ram = vthread.RAM(m, "ram", CLK, RST, datawidth=8, addrwidth=2, numports=2)\nxa = m.Input("xa", 2)\nxd = m.Input("xd", 8)\nxw = m.Input("xw")\nxe = m.Input("xe")\nxr = m.Output("xr", 8)\nxv = m.Output("xv")\n' + \
    'xz = m.Input("xz", 2)\nrd, rv = ram.read_rtl(xz, port=1, cond=xe)\nram.write_rtl(xa, xd, port=1, cond=xw)\nxr.assign(rd)\nxv.assign(rv)\n'


def portmon(names, rtl=False):
    def mon(c, h, a, st, s):
        """reference memory written by both ports; the outside port must read what is there (not the word the thread writes in the same cycle)"""
        if 'm' not in st:
            st['m'] = [h.get('inst_ram.mem', k) for k in range(4)]
            st['due'] = None
        xa, xd, xw, xe, xr = names
        if st['due'] is not None:
            en, v = st['due']
            c.check('the outside port reads the stored word, cycle %d' % s, t.implies(en, h.get(xr).eq(v)))
            if rtl:
                c.check('valid follows a read request, cycle %d' % s, h.get('xv').eq(st['dv']))
        en, we, ad, wd = h.get(xe).eq(1), h.get(xw).eq(1), h.get(xa), h.get(xd)
        ra = h.get('xz') if rtl else ad
        tw, ta, td = t.and_(h.get('ram_0_enable').eq(1), h.get('ram_0_wenable').eq(1)), h.get('ram_0_addr'), h.get('ram_0_wdata')
        if rtl:
            st['dv'] = h.get(xe)
        st['due'] = (t.and_(en, t.not_(we)), ld(st['m'], ra))
        ww = we if rtl else t.and_(en, we)
        m = [ite(t.and_(tw, ta.eq(k)), td, x) for k, x in enumerate(st['m'])]
        st['m'] = [ite(t.and_(ww, ad.eq(k)), wd, x) for k, x in enumerate(m)]
        # two writes to one word in one cycle: unspecified winner
        c.assume(t.not_(t.and_(tw, ww, ta.eq(ad))))
    return mon


PT = thr('p', 'ram.write(a, d)\nwhile s:\n    pass\no0.value = ram.read(b)\no2.value = 1\n')
for nm, pre, names, dr, rtl in (('ext_port', EXP, ('ram_1_addr', 'ram_1_wdata', 'ram_1_wenable', 'ram_1_enable', 'ram_1_rdata'), {'ram_1_addr': 2, 'ram_1_wdata': 8, 'ram_1_wenable': 1, 'ram_1_enable': 1}, False),
                                ('connect', CON, ('xa', 'xd', 'xw', 'xe', 'xr'), {'xa': 2, 'xd': 8, 'xw': 1, 'xe': 1}, False),
                                ('rtl', RTL, ('xa', 'xd', 'xw', 'xe', 'xr'), {'xa': 2, 'xd': 8, 'xw': 1, 'xe': 1, 'xz': 2}, True)):
    kadd(nm, pre + PT, AD, {'o0': (8, False), 'o2': 1},
         [('the memory holds what both ports wrote', lambda h, a, st: t.and_(*[h.get('inst_ram.mem', k).eq(x) for k, x in enumerate(st['m'])])), ('the thread finished', lambda h, a, st: h.get('o2').eq(1))],
         ins={'s': 1}, free=9, drain=14, monitor=portmon(names, rtl), drive=dr, bounds='all port activity over 9 cycles')
# two threads on one port under the ram's mutex; each on its own port without
for k, (src, exp) in enumerate((
        (''.join(thr(x, 'while %s:\n    pass\nram.lock()\nv = ram.read(a)\nwhile %s:\n    pass\nram.write(a, v + %d)\nram.unlock()\n%s.value = 1\n' % (s, s, n, o)) for x, s, n, o in (('p', 's', 1, 'o0'), ('q', 'u', 4, 'o1'))), 5),
        (''.join(thr(x, 'while %s:\n    pass\nv = ram.read(a, %d)\nram.write(b, v + 1, %d)\n%s.value = 1\n' % (s, n, n, o)) for x, s, n, o in (('p', 's', 0, 'o0'), ('q', 'u', 1, 'o1'))), None))):
    fin = [('both finished', lambda h, a, st: t.and_(h.get('o0').eq(1), h.get('o1').eq(1)))]
    fin.append(('no update is lost', lambda h, a, st: ld([h.get('inst_ram.mem', i) for i in range(4)], a['a']).eq(ld(st['m0'], a['a']) + 5)) if exp else
               ('the word read plus one is stored', lambda h, a, st: t.implies(a['a'].ne(a['b']), ld([h.get('inst_ram.mem', i) for i in range(4)], a['b']).eq(ld(st['m0'], a['a']) + 1))))

    def mon0(c, h, a, st, s):
        st.setdefault('m0', [h.get('inst_ram.mem', i) for i in range(4)])
    kadd('threads_%d' % k, 'ram = vthread.RAM(m, "ram", CLK, RST, datawidth=8, addrwidth=2, numports=2)\n' + src, {'a': 2, 'b': 2}, {'o0': 1, 'o1': 1}, fin, ins={'s': 1, 'u': 1}, free=10, drain=30,
         monitor=mon0, bounds='all stall patterns over 10 cycles, all contents')

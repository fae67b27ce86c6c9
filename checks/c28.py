"""C28: stream reductions and counters equal the fold of their inputs."""
from vlib import term as t
from vlib.term import const, ite
from vlib.harness import Registry
from checks.strm import strm, N, W, wrap
from checks.tstrm import tstrm
from checks.c30 import body, stream, K
from checks.c31 import rd, wr, acc, cfg, RUN

R = Registry('C28', 'model_checking', ['stream/stypes.py', 'stream/stream.py', 'stream/scheduler.py', 'thread/stream.py', 'verilog generation'],
             assumptions=['sizes and intervals are at least 1; a step is at most the size',
                          'on an element that is not accumulated, behind a completed group, the output is not claimed',
                          'argmax/argmin: claimed from the first element that replaces the initial value'],
             explanation='Each accumulator/counter runs on symbolic elements, enables, resets, parameters and gap/stall patterns; after every element its '
                         'output is compared with the sequential fold written down independently.')
B = lambda x: t.ite(x, const(1, W), const(0, W))


def nz(x):
    return x.nz()


def grp(st, key, fire, init, f, x, size=None, interval=None, en=None, rs=None, wd=8, sg=True, reg=None):
    """sequential fold -> (output, hit, done, fresh, claim)"""
    s = st.setdefault(key, dict(acc=reg if reg is not None else init, cnt=const(0, W), done=t.false(), ic=const(0, W)))
    rs = t.false() if rs is None else rs
    en = t.true() if en is None else en
    fresh = t.or_(rs, s['done'])
    a0 = ite(fresh, init, s['acc'])
    c0 = ite(fresh, const(0, W), s['cnt'])
    i0 = ite(rs, const(0, W), s['ic'])
    hit = en if interval is None else t.and_(en, i0.eq(interval - const(1, W)))
    ni = i0 if interval is None else ite(en, ite(hit, const(0, W), i0 + const(1, W)), i0)
    a1 = ite(hit, wrap(f(a0, x), wd, sg), a0)
    last = t.false() if size is None else (size - const(1, W)).sle(c0)
    done = ite(hit, last, ite(rs, t.false(), s['done']))
    c1 = ite(hit, ite(last, const(0, W), c0 + const(1, W)), c0)
    claim = t.or_(hit, rs, t.not_(s['done']))
    s['acc'] = ite(fire, a1, s['acc'])
    s['cnt'] = ite(fire, c1, s['cnt'])
    s['done'] = ite(fire, done, s['done'])
    s['ic'] = ite(fire, ni, s['ic'])
    return a1, hit, t.and_(hit, last), c0, claim


def out(v, claim=None):
    n = N(v)
    if claim is not None:
        n.when = claim
    return n


def held(name, opts, e):
    # the pulse of a stream without reset is held on elements that are not enabled (known finding kf_pulse_held)
    if 'e' in opts and not set(opts) & set('riIj') and not name.startswith('kf_'):
        return nz(e['e'].v)


OPS = {'Add': lambda a, x: a + x, 'Sub': lambda a, x: a - x, 'Max': lambda a, x: ite(a.slt(x), x, a), 'Min': lambda a, x: ite(x.slt(a), x, a)}
UOPS = dict(OPS)
X8 = ('x', (8, 0, True))


def deepen(src, opts):
    """operands that arrive at different pipeline stages: D (data, dependency), F (enable), G (reset)"""
    if 'D' in opts:
        src = src.replace('dependency=x', 'dependency=(x + 1) - 1').replace('(x, ', '((x + 1) - 1, ').replace(', x, ', ', (x + 1) - 1, ')
    if 'F' in opts:
        src = src.replace('enable=e', 'enable=S.Land(S.Land(e, e), e)')
    if 'G' in opts:
        src = src.replace('reset=r', 'reset=S.Land(S.Land(r, r), r)')
    return src


def red(name, op, opts, mode, n=4, init=0, wd=8, sg=True, valid=False, f=None, tier='quick', xs=None, cls=None, reg=None):
    """opts: string of: s(size param) S(size const 2) T(size const 3), i(interval const 2) I(const 3) j(interval param), e(enable), r(reset), n(initval param)"""
    vs = {'x': xs or (wd, 0, sg)}
    params = {}
    kw = []
    if 's' in opts:
        params['size'] = (3, 0, False)
        kw.append('size=size')
    for k, v in (('O', 1), ('S', 2), ('T', 3)):
        if k in opts:
            kw.append('size=%d' % v)
    for k, v in (('i', 2), ('I', 3)):
        if k in opts:
            kw.append('interval=%d' % v)
    if 'j' in opts:
        params['itv'] = (2, 0, False)
        kw.append('interval=itv')
    if 'e' in opts:
        vs['e'] = (1, 0, False)
        kw.append('enable=e')
    if 'r' in opts:
        vs['r'] = (1, 0, False)
        kw.append('reset=r')
    if 'n' in opts:
        params['init'] = (wd, 0, sg)
        kw.append('initval=init')
    elif init:
        kw.append('initval=%d' % init)
    kw += ['width=%d' % wd, 'signed=%s' % sg]
    pre = 'x, ' if op != 'Custom' else 'FN, x, '
    src = ''.join("%s = S.%s(%r, width=%d, signed=%s)\n" % (k, 'Variable', k, w, s) for k, (w, p, s) in ())
    if op == 'Custom':
        src += cls + '\n'
    if valid:
        src += "z, v = S.Reduce%sValid(%s%s)\nz.output('z')\nv.output('v')\nOUT = [z, v]\n" % (op, pre, ', '.join(kw))
    else:
        src += "z = S.Reduce%s(%s%s)\nz.output('z')\nOUT = [z]\n" % (op, pre, ', '.join(kw))
    src = deepen(src, opts)
    g = f or OPS[op]

    def ref(e, st, fire):
        size = e['size'].v if 's' in opts else next((const(v, W) for k, v in (('O', 1), ('S', 2), ('T', 3)) if k in opts), None)
        itv = e['itv'].v if 'j' in opts else next((const(v, W) for k, v in (('i', 2), ('I', 3)) if k in opts), None)
        iv = e['init'].v if 'n' in opts else const(init, W)
        a, hit, done, _, claim = grp(st, 'a', fire, iv, g, e['x'].v, size, itv, nz(e['e'].v) if 'e' in opts else None, nz(e['r'].v) if 'r' in opts else None, wd, sg,
                                     reg=const(0, W) if 'n' in opts else None)
        r = [out(a, claim)]
        if valid:
            r.append(out(B(done), held(name, opts, e)))
        return r

    def pre_(e):
        l = []
        if 's' in opts:
            l.append(e['size'].v.ne(0))
        if 'j' in opts:
            l.append(e['itv'].v.ne(0))
        return l
    (reg or R).add('%s_%s%s' % (name, opts, '_' + mode if mode else ''), strm(src, vs, ref, mode, n, outs=['z', 'v'] if valid else ['z'], pre=pre_ if 's' in opts or 'j' in opts else None, params=params),
          tier=tier, bounds='%d cycles beyond the depth, all elements, enables, resets, parameters and gap/stall patterns' % n)


for op in ('Add', 'Sub', 'Max', 'Min'):
    for o, mode in (('', ''), ('', 'v'), ('', 'vr'), ('r', ''), ('e', 'v'), ('S', ''), ('S', 'v'), ('se', 'v'), ('Te', 'r'), ('i', 'v'), ('iS', ''), ('er', 'v'), ('sr', 'v'), ('ser', 'v'), ('ir', ''), ('Ie', ''), ('iSer', 'v'), ('jse', 'v'),
                    ('nr', ''), ('nS', 'v'), ('nser', 'vr')):
        if 'n' in o and 'r' not in o and op != 'Add':
            continue
        red('red%s' % op.lower(), op, o, mode, 6)
    red('red%s_u' % op.lower(), op, 'ser', 'v', 5, sg=False, f={'Max': lambda a, x: ite(a.ult(x), x, a), 'Min': lambda a, x: ite(x.ult(a), x, a)}.get(op, OPS[op]))
    red('red%s_init' % op.lower(), op, 'ser', 'v', 5, init=5)
    red('red%s_initneg' % op.lower(), op, 'Sr', '', 5, init=-7)
    red('red%s_wide' % op.lower(), op, 'Te', 'v', 5, wd=12, xs=(8, 0, True))
    red('red%s_narrow' % op.lower(), op, 'T', 'v', 5, wd=6, xs=(6, 0, True))
    for o, mode in (('S', 'v'), ('s', 'v'), ('se', 'v'), ('ser', 'v'), ('Te', 'vr'), ('iS', 'v'), ('ITe', ''), ('O', 'v'), ('Oe', 'v'), ('jse', 'v'), ('jser', 'v')):
        red('red%svalid' % op.lower(), op, o, mode, 6, valid=True)
red('redcustom', 'Custom', 'ser', 'v', 5, cls='FN = lambda a, b: (a ^ b) + 1', f=lambda a, x: (a ^ x) + const(1, W))
red('redcustom', 'Custom', 'S', 'vr', 5, cls='FN = lambda a, b: (a ^ b) + 1', f=lambda a, x: (a ^ x) + const(1, W))
red('redcustom2', 'Custom', 'Te', 'v', 5, cls='FN = (lambda a, b: a + b, lambda a, b: a ^ 3)', f=lambda a, x: (a + x) ^ const(3, W))
red('redcustomvalid', 'Custom', 'ser', 'v', 5, cls='FN = lambda a, b: (a ^ b) + 1', f=lambda a, x: (a ^ x) + const(1, W), valid=True)


def counter(name, opts, mode, n=6, size=None, step=1, init=0, offset=None, wd=8, valid=False, dep='x', tier='quick'):
    vs = {'x': (8, 0, True)}
    params = {}
    kw = ['dependency=x'] if dep else []
    if size is not None:
        kw.append('size=%d' % size)
    if 's' in opts:
        params['size'] = (4, 0, False)
        kw.append('size=size')
    if step != 1:
        kw.append('step=%d' % step)
    if 'p' in opts:
        params['step'] = (2, 0, False)
        kw.append('step=step')
    if init:
        kw.append('initval=%d' % init)
    if 'n' in opts:
        params['init'] = (3, 0, False)
        kw.append('initval=init')
    if offset is not None:
        kw.append('offset=%d' % offset)
    for k, v in (('i', 2), ('I', 3)):
        if k in opts:
            kw.append('interval=%d' % v)
    if 'j' in opts:
        params['itv'] = (2, 0, False)
        kw.append('interval=itv')
    if 'e' in opts:
        vs['e'] = (1, 0, False)
        kw.append('enable=e')
    if 'r' in opts:
        vs['r'] = (1, 0, False)
        kw.append('reset=r')
    kw.append('width=%d' % wd)
    if valid:
        src = "z, v = S.CounterValid(%s)\nz.output('z')\nv.output('v')\ny = x + 0\ny.output('y')\nOUT = [z, v, y]\n" % ', '.join(kw)
    else:
        src = "z = S.Counter(%s)\nz.output('z')\ny = x + 0\ny.output('y')\nOUT = [z, y]\n" % ', '.join(kw)
    src = deepen(src, opts)

    def ref(e, st, fire):
        sz = e['size'].v if 's' in opts else const(size, W) if size is not None else None
        sp = e['step'].v if 'p' in opts else const(step, W)
        iv = e['init'].v if 'n' in opts else const(init, W)
        it = e['itv'].v if 'j' in opts else next((const(v, W) for k, v in (('i', 2), ('I', 3)) if k in opts), None)
        s = st.setdefault('c', dict(c=const(0, W) if 'n' in opts else iv, ic=const(0, W), n=const(0, W)))
        rs = nz(e['r'].v) if 'r' in opts else t.false()
        en = nz(e['e'].v) if 'e' in opts else t.true()
        c0 = ite(rs, iv, s['c'])
        i0 = ite(rs, const(0, W), s['ic'])
        n0 = ite(rs, const(0, W), s['n'])
        hit = en if it is None else t.and_(en, i0.eq(it - const(1, W)))
        nx = c0 + sp
        if sz is not None:
            nx = ite((sz - sp).sle(c0), const(offset, W) if offset is not None else nx - sz, nx)
        nx = wrap(nx, wd, False)
        last = (sz - const(1, W)).sle(n0) if sz is not None else t.false()
        s['c'] = ite(fire, ite(hit, nx, c0), s['c'])
        s['n'] = ite(fire, ite(hit, ite(last, const(0, W), n0 + const(1, W)), n0), s['n'])
        s['ic'] = ite(fire, i0 if it is None else ite(en, ite(hit, const(0, W), i0 + const(1, W)), i0), s['ic'])
        r = [out(c0)]
        if valid:
            r.append(out(B(t.and_(hit, last)), held(name, opts, e)))
        r.append(out(e['x'].v))
        return r

    def pre_(e):
        l = []
        if 's' in opts:
            l.append(e['size'].v.ne(0))
            if 'p' in opts:
                l.append(e['step'].v.sle(e['size'].v))
            elif step != 1:
                l.append(const(step, W).sle(e['size'].v))
            if 'n' in opts:
                l.append(e['init'].v.slt(e['size'].v))
        if 'j' in opts:
            l.append(e['itv'].v.ne(0))
        return l
    R.add('%s_%s%s' % (name, opts, '_' + mode if mode else ''), strm(src, vs, ref, mode, n, outs=['z', 'v', 'y'] if valid else ['z', 'y'], pre=pre_ if set('sj') & set(opts) else None, params=params),
          tier=tier, bounds='%d cycles beyond the depth, all enables, resets, parameters and gap/stall patterns' % n)


for o, mode in (('', 'v'), ('', 'vr'), ('e', 'v'), ('r', ''), ('er', 'v'), ('s', 'v'), ('se', 'v'), ('ser', 'vr'), ('p', 'v'), ('sp', 'v'), ('spe', 'v'), ('i', 'v'), ('ie', 'v'), ('Ir', ''), ('ier', 'v'), ('jser', 'v'), ('snr', 'v'), ('nspr', 'v'), ('nr', 'vr')):
    counter('counter', o, mode, 7)
counter('counter3', '', 'v', size=3)
counter('counter3', 'er', 'v', size=3)
counter('counter_init', 'e', 'v', init=5)
counter('counter_init_size', 'er', 'v', init=2, size=4)
counter('counter_step2', 'e', 'v', step=2, size=5)
counter('counter_step3', 'er', 'vr', step=3, size=7)
counter('counter_off', '', 'v', size=4, offset=2)
counter('counter_off', 'er', 'v', size=3, offset=1, init=1)
counter('counter_off', 's', 'v', offset=1)
counter('counter_w3', '', 'v', wd=3, n=10)
counter('counter_w2', 'e', 'v', wd=2, n=8)
for o, mode in (('s', 'v'), ('se', 'v'), ('ser', 'v'), ('si', 'v'), ('sIe', 'v'), ('sjer', 'v'), ('s', 'vr')):
    counter('countervalid', o, mode, 7, valid=True)

DEEP = ('Der', 'Fer', 'Ger', 'DFer', 'DGer', 'FGser', 'DFGser', 'DFse')
for o in DEEP:
    for mode in ('', 'v', 'vr'):
        if mode or 'r' in o:
            red('reddeep', 'Add', o, mode, 5)
            red('reddeepmax', 'Max', o, mode, 5)
    red('reddeepvalid', 'Add', o if 's' in o else 's' + o, 'v', 5, valid=True)
    counter('counterdeep', o, 'v', 6)
    counter('countervaliddeep', o if 's' in o else 's' + o, 'v', 6, valid=True)


def pulse(opts, mode, n=6, size=2, name='pulse'):
    vs = {'x': (8, 0, True)}
    params = {}
    kw = ['size=size' if 's' in opts else 'size=%d' % size, 'dependency=x']
    if 's' in opts:
        params['size'] = (3, 0, False)
    for k, v in (('i', 2), ('I', 3)):
        if k in opts:
            kw.append('interval=%d' % v)
    if 'e' in opts:
        vs['e'] = (1, 0, False)
        kw.append('enable=e')
    if 'r' in opts:
        vs['r'] = (1, 0, False)
        kw.append('reset=r')
    src = "z = S.Pulse(%s)\nz.output('z')\ny = x + 0\ny.output('y')\nOUT = [z, y]\n" % ', '.join(kw)

    def ref(e, st, fire):
        it = next((const(v, W) for k, v in (('i', 2), ('I', 3)) if k in opts), None)
        _, hit, done, _, _ = grp(st, 'p', fire, const(0, W), lambda a, x: a, const(0, W), e['size'].v if 's' in opts else const(size, W), it, nz(e['e'].v) if 'e' in opts else None, nz(e['r'].v) if 'r' in opts else None)
        return [out(B(done), held(name, opts, e)), out(e['x'].v)]
    R.add('%s%d_%s_%s' % (name, size, opts, mode), strm(src, vs, ref, mode, n, outs=['z', 'y'], pre=(lambda e: [e['size'].v.ne(0)]) if 's' in opts else None, params=params),
          bounds='%d cycles beyond the depth, all enables, resets, sizes and gap/stall patterns' % n)


for o, mode in (('', 'v'), ('s', 'v'), ('s', 'vr'), ('e', 'v'), ('r', 'v'), ('er', 'v'), ('ser', 'v'), ('i', 'v'), ('I', 'v'), ('Ie', 'v'), ('sier', 'v')):
    pulse(o, mode, 7)
pulse('e', 'v', size=1)
pulse('er', 'v', size=3)
pulse('e', 'v', name='kf_pulse_held')


def arg(op, opts, mode, n=5, size=None, sg=True, valid=False, init=0, wd=8):
    vs = {'x': (wd, 0, sg)}
    params = {}
    kw = ['width=%d' % wd, 'signed=%s' % sg]
    if init:
        kw.append('initval=%d' % init)
    if size:
        kw.append('size=%d' % size)
    if 's' in opts:
        params['size'] = (3, 0, False)
        kw.append('size=size')
    for k, v in (('i', 2), ('I', 3)):
        if k in opts:
            kw.append('interval=%d' % v)
    if 'e' in opts:
        vs['e'] = (1, 0, False)
        kw.append('enable=e')
    if 'r' in opts:
        vs['r'] = (1, 0, False)
        kw.append('reset=r')
    src = ("i, z, v = S.ReduceArg%sValid(x, %s)\nv.output('v')\n" if valid else "i, z = S.ReduceArg%s(x, %s)\n") % (op, ', '.join(kw)) + "i.output('i')\nz.output('z')\nOUT = [i, z%s]\n" % (', v' if valid else '')

    def better(a, x):
        if op == 'Max':
            return a.slt(x)
        return x.slt(a)

    def ref(e, st, fire):
        sz = e['size'].v if 's' in opts else const(size, W) if size else None
        it = next((const(v, W) for k, v in (('i', 2), ('I', 3)) if k in opts), None)
        x = e['x'].v
        old = dict(st['a']) if 'a' in st else dict(acc=const(init, W), cnt=const(0, W), done=t.false())
        en = nz(e['e'].v) if 'e' in opts else t.true()
        rs = nz(e['r'].v) if 'r' in opts else t.false()
        a, hit, done, c0, claim = grp(st, 'a', fire, const(init, W), lambda p, q: ite(better(p, q), q, p), x, sz, it, en, rs, wd, sg)
        fresh = t.or_(rs, old['done'])
        a0 = ite(fresh, const(init, W), old['acc'])
        up = t.and_(hit, better(a0, x))
        q = st.setdefault('i', dict(idx=const(0, W), ok=t.false(), n=const(0, W)))
        # the index of an element counts the accumulated elements before it
        n0 = ite(fresh, const(0, W), q['n'])
        idx = ite(up, n0, q['idx'])
        ok = ite(up, t.true(), t.and_(t.not_(fresh), q['ok']))
        q['n'] = ite(fire, ite(hit, n0 + const(1, W), n0), q['n'])
        q['idx'] = ite(fire, idx, q['idx'])
        q['ok'] = ite(fire, ok, q['ok'])
        r = [out(idx, t.and_(ok, claim)), out(a, claim)]
        if valid:
            r.append(out(B(done), held("arg", opts, e)))
        return r
    R.add('arg%s%s%s_%s_%s%s' % (op.lower(), 'v' if valid else '', size or '', opts, mode, '' if sg else '_u'), strm(src, vs, ref, mode, n, outs=['i', 'z', 'v'] if valid else ['i', 'z'], pre=(lambda e: [e['size'].v.ne(0)]) if 's' in opts else None, params=params),
          bounds='%d cycles beyond the depth, all elements, enables, resets and gap/stall patterns' % n)


for op in ('Max', 'Min'):
    for o, mode, size in (('', 'v', None), ('', 'v', 2), ('', 'v', 3), ('s', 'vr', None), ('r', '', None), ('e', 'v', 2), ('er', 'v', 3), ('ser', 'v', None), ('i', 'v', 2), ('', 'vr', 2)):
        arg(op, o, mode, 6, size, init=0 if op == 'Max' else 127)
        arg(op, o, mode, 6, size, init=0 if op == 'Max' else 127, valid=True) if size else None
    arg(op, '', 'v', 6, 2, sg=False, init=0 if op == 'Max' else 255)


# pseudo-random numbers: xorshift
def xs(v, w, abc):
    m = const((1 << w) - 1, W)
    v = v ^ (t.shl(v, const(abc[0], W)) & m)
    v = v ^ t.lshr(v, const(abc[1], W))
    return v ^ (t.shl(v, const(abc[2], W)) & m)


def rand(name, kw, mode, w=32, seed=0x12345678, n=5, en=False):
    vs = {'x': (8, 0, True)}
    if en:
        vs['e'] = (1, 0, False)
    src = "z = S.RandXorshift(dependency=x%s%s)\nz.output('z')\ny = x + 0\ny.output('y')\nOUT = [z, y]\n" % (kw, ', enable=e' if en else '')

    def ref(e, st, fire):
        s = st.setdefault('r', dict(v=const(seed, W), o=const(seed, W)))
        h = nz(e['e'].v) if en else t.true()
        o = ite(h, s['v'], s['o'])
        s['o'] = ite(fire, o, s['o'])
        s['v'] = ite(t.and_(fire, h), xs(s['v'], w, (13, 17, 5) if w == 32 else (13, 7, 17)), s['v'])
        return [out(o), out(e['x'].v)]
    R.add(name, strm(src, vs, ref, mode, n, outs=['z', 'y']), bounds='%d cycles beyond the depth, any gap/stall/enable pattern' % n)


rand('rand32', '', 'v')
rand('rand32_vr', '', 'vr')
rand('rand32_seed', ', reg_initval=7', 'v', seed=7)
rand('rand32_en', '', 'v', en=True)
rand('rand64', ', width=64, reg_initval=0x123456789abcdef', 'v', w=64, seed=0x123456789abcdef)


# user-defined counters
def custom(name, fsrc, nv, f, opts, mode, n=5, args=(), inits=None, wl=(8, 6)):
    vs = {'x': (8, 0, True), 'r': (1, 0, False)}
    params = {'p%d' % i: (6, 0, True) for i in range(nv)}
    iv = ', '.join('p%d' % i for i in range(nv))
    src = ("FN = %s\n" % fsrc) + "q = S.CustomCounter(FN, [%s], args=%s, reset=r, width_list=%r)\n" % (iv, '[x + 0]' if args else 'None', list(wl[:nv]))
    src += ''.join("q[%d].output('z%d')\n" % (i, i) for i in range(nv)) + "y = x + 0\ny.output('y')\nOUT = list(q) + [y]\n"

    def ref(e, st, fire):
        s = st.setdefault('c', [const(0, W)] * nv)
        rs = nz(e['r'].v)
        nx = f(s, e['x'].v)
        o = [ite(rs, wrap(e['p%d' % i].v, wl[i], True), wrap(nx[i], wl[i], True)) for i in range(nv)]
        for i in range(nv):
            s[i] = ite(fire, o[i], s[i])
        return [out(v) for v in o] + [out(e['x'].v)]
    R.add(name + '_' + mode, strm(src, vs, ref, mode, n, outs=['z%d' % i for i in range(nv)] + ['y'], params=params), bounds='%d cycles beyond the depth, all elements, resets and gap/stall patterns' % n)


for mode in ('', 'v', 'r', 'vr'):
    custom('custom1', 'lambda a: (a + 3,)', 1, lambda s, x: [s[0] + const(3, W)], '', mode)
    custom('custom2', 'lambda a, b: (a + b, b + 1)', 2, lambda s, x: [s[0] + s[1], s[1] + const(1, W)], '', mode)
    custom('custom1_arg', 'lambda a, d: (a + d,)', 1, lambda s, x: [s[0] + x], '', mode, args=1)
    custom('custom2_arg', 'lambda a, b, d: (a + d, b - a)', 2, lambda s, x: [s[0] + x, s[1] - s[0]], '', mode, args=1)

# under a thread: the first element of every run starts a new fold, whatever the previous run left behind
R2 = {'ra': (8, 4), 'rc': (8, 4)}
R3 = {'ra': (8, 4), 'rb': (8, 4), 'rc': (8, 4)}


def thr(name, src, f, n1=3, n2=2, m1=None, m2=None, rams=R2, more='', **kw):
    """f(list of elements) -> list of expected words"""
    def ref(M, a):
        for o1, o2, n in ((3, 2, n1), (8, 9, n2)):
            l = rd(M, 'ra', o1, n)
            l = [l, rd(M, 'rb', o1, n)] if rams is R3 else [l]
            wr(M, 'rc', o2, f(*l))
    c2 = lambda o, n: "s.set_source('b', rb, %d, %d)\n" % (o, n) if rams is R3 else ''
    R.add('thr_' + name, tstrm(stream() + src + body(c2(3, n1) + cfg(3, 2, n1, m1) + RUN + c2(8, n2) + cfg(8, 9, n2, m2) + RUN), rams, ref, **dict(dict(cycles=120, autosplit=False), **kw)), bounds='two runs, all memory contents')


def groups(l, k, interval=1, en=None):
    """[(accumulated elements of a group)] complete groups only"""
    h = l[interval - 1::interval]
    return [h[i:i + k] for i in range(0, len(h) - k + 1, k)]


def fold(f, l, init):
    a = K(init)
    for x in l:
        a = f(a, x)
    return a


smax = lambda a, x: ite(a.slt(x), x, a)
smin = lambda a, x: ite(x.slt(a), x, a)
for nm, op, f, init in (('add', 'Add', lambda a, x: a + x, 0), ('sub', 'Sub', lambda a, x: a - x, 3), ('max', 'Max', smax, -128), ('min', 'Min', smin, 127)):
    src = "a = s.source('a')\nz, v = s.Reduce%sValid(a, 2%%s, initval=%d, width=8)\ns.sink(z, 'c', when=v, when_name='v')\n" % (op, init)
    thr(nm, src % '', lambda l, f=f, init=init: [fold(f, q, init) for q in groups(l, 2)], 5, 4, 2, 2)
    thr(nm + '_itv', src % ', interval=2', lambda l, f=f, init=init: [fold(f, q, init) for q in groups(l, 2, 2)], 5, 4, 1, 1)


def enfold(f, init, size):
    """enabled elements are the ones with bit 0 of b set; every word is the running fold"""
    def g(l, e):
        r, a, n = [], K(init), K(0)
        done = t.false()
        for x, b in zip(l, e):
            en = t.extract(b, 0, 0).eq(1)
            a0 = ite(done, K(init), a)
            n0 = ite(done, K(0), n)
            a = ite(en, f(a0, x), a0)
            last = n0.eq(size - 1)
            n = ite(en, n0 + 1, n0)
            done = ite(en, last, t.false())
            r.append(a)
        return r
    return g


thr('add_en', "a = s.source('a')\nb = s.source('b')\nz = s.ReduceAdd(a, 3, enable=b[0] == 1, width=8)\ns.sink(z, 'c')\n", enfold(lambda a, x: a + x, 0, 3), 4, 4, rams=R3)
thr('max_en', "a = s.source('a')\nb = s.source('b')\nz = s.ReduceMax(a, 2, enable=b[0] == 1, initval=-128, width=8)\ns.sink(z, 'c')\n", enfold(smax, -128, 2), 3, 3, rams=R3)


def cnt_en(itv):
    def g(l, e):
        r, c, k = [], K(0), K(0)
        for x, b in zip(l, e):
            en = t.extract(b, 0, 0).eq(1)
            r.append(x + c)
            hit = t.and_(en, k.eq(itv - 1))
            c = ite(hit, c + 1, c)
            k = ite(en, ite(hit, K(0), k + 1), k)
        return r
    return g


thr('cnt_en', "a = s.source('a')\nb = s.source('b')\ni = s.Counter(enable=b[0] == 1)\ns.sink(a + i, 'c')\n", cnt_en(1), 4, 4, rams=R3)
thr('cnt_en_itv', "a = s.source('a')\nb = s.source('b')\ni = s.Counter(enable=b[0] == 1, interval=2)\ns.sink(a + i, 'c')\n", cnt_en(2), 4, 4, rams=R3)
thr('cnt_itv', "a = s.source('a')\ni = s.Counter(interval=2)\ns.sink(a + i, 'c')\n", lambda l: [x + (i // 2 if False else (i) // 2) for i, x in enumerate(l)], 4, 3)
thr('cnt_size', "a = s.source('a')\ni = s.Counter(size=3)\ns.sink(a + i, 'c')\n", lambda l: [x + i % 3 for i, x in enumerate(l)], 5, 4)
thr('cnt_reset', "a = s.source('a')\ni = s.Counter(reset=a == 5)\ns.sink(i, 'c')\n", lambda l: creset(l), 4, 4)


def creset(l):
    r, c = [], K(0)
    for x in l:
        c = ite(x.eq(5), K(0), c)
        r.append(c)
        c = c + 1
    return r


def argref(f, init, k):
    def g(l):
        r = []
        for q in groups(l, k):
            a, i = K(init), K(0)
            for j, x in enumerate(q):
                b = f(a, x)
                i = ite(b.ne(a), K(j), i)
                a = b
            r.append(i)
        return r
    return g


for k in (2, 3):
    thr('argmax%d' % k, "a = s.source('a')\ni, z, v = s.ReduceArgMaxValid(a, %d, initval=-128, width=8)\ns.sink(i, 'c', when=v, when_name='v')\n" % k, argref(smax, -128, k), 2 * k, k, 2, 1)
    thr('argmin%d' % k, "a = s.source('a')\ni, z, v = s.ReduceArgMinValid(a, %d, initval=127, width=8)\ns.sink(i, 'c', when=v, when_name='v')\n" % k, argref(smin, 127, k), 2 * k, k, 2, 1)
thr('custom', "a = s.source('a')\np, q = s.CustomCounter(lambda x, y: (x + y, y + 1), [2, 3], width_list=[8, 8])\ns.sink(a + p, 'c')\n", lambda l: [x + [2, 5, 9, 14][i] for i, x in enumerate(l)], 4, 3)
thr('custom_arg', "a = s.source('a')\np, = s.CustomCounter(lambda x, d: (x + d,), [2], args=[a], width_list=[8])\ns.sink(p, 'c')\n", lambda l: acc([K(2)] + l[1:]), 4, 3)
thr('mul', "a = s.source('a')\nz, v = s.ReduceMulValid(a, 2, initval=1, width=8)\ns.sink(z, 'c', when=v, when_name='v')\n", lambda l: [fold(lambda a, x: a * x, q, 1) for q in groups(l, 2)], 4, 2, 2, 1, cycles=220)
thr('mul_itv', "a = s.source('a')\nz, v = s.ReduceMulValid(a, 2, interval=2, initval=1, width=8)\ns.sink(z, 'c', when=v, when_name='v')\n", lambda l: [fold(lambda a, x: a * x, q, 1) for q in groups(l, 2, 2)], 4, 4, 1, 1, cycles=220)
thr('mul_run', "a = s.source('a')\nz = s.ReduceMul(a, initval=3, width=8)\ns.sink(z, 'c')\n", lambda l: [fold(lambda a, x: a * x, l[:i + 1], 3) for i in range(len(l))], 3, 2, cycles=220)


def tdiv(a, x):
    """quotient truncated toward zero"""
    na, nx = a.slt(0), x.slt(0)
    q = t.udiv(ite(na, -a, a), ite(nx, -x, x))
    return ite(na.ne(nx), -q, q)


thr('div', "a = s.source('a')\nz, v = s.ReduceDivValid(s.Mux(a == 0, 1, a), 2, initval=100, width=8)\ns.sink(z, 'c', when=v, when_name='v')\n", lambda l: [fold(lambda a, x: tdiv(a, ite(x.eq(0), K(1), x)), q, 100) for q in groups(l, 2)], 2, 2, 1, 1, cycles=220)
thr('div_run', "a = s.source('a')\nz = s.ReduceDiv(s.Mux(a == 0, 1, a), initval=-77, width=8)\ns.sink(z, 'c')\n", lambda l: [fold(lambda a, x: tdiv(a, ite(x.eq(0), K(1), x)), l[:i + 1], -77) for i in range(len(l))], 2, 1, cycles=220)

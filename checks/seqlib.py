"""Program description for Seq/FSM: one builder through the real API, one independent reference printer."""
from vlib import term as t
from . import c01, c03

INS = {'a': (1, False), 'b': (1, False), 'd': (1, False), 'x': (4, False), 'y': (4, False), 'z': (4, True)}
# name -> (width, signed, initval, dims)
REGS = {'r0': (4, False, 0, None), 'r1': (4, False, 5, None), 'r2': (4, True, -3, None), 'r3': (8, False, 0xa5, None),
        'f0': (1, False, 1, None), 'f1': (1, False, 0, None), 'nr': (4, False, None, None), 'mem': (4, False, None, 4)}
W = {n: v[0] for n, v in INS.items()}
W.update({n: v[0] for n, v in REGS.items()})


def setup_w():
    c03.W.update(W)


setup_w()


def V(n):
    return ('v', n)


def tgt(l):
    return V(l) if isinstance(l, str) else l


# chain operation: (kind, conds, opts, stmts)
def op(kind, conds, stmts, **opts):
    return (kind, list(conds), opts, [(tgt(l), r) for l, r in stmts])


class Ref(object):
    """guards of a chain program; collects (guard, delay, eager, lazy, target, value) in program order"""

    def __init__(self):
        self.arms = []
        self.last = None
        self.acts = []

    def guard(self, kind, conds):
        conj = lambda cs: cs[0] if len(cs) == 1 else ('Land', conj(cs[:-1]), cs[-1])
        if kind in ('call', 'seqcall'):
            return None
        if kind in ('If', 'IfIf', 'IfTuple', 'kwcond'):
            g = conj(conds)
            if kind != 'kwcond':
                self.arms = [g]
        elif kind == 'Elif':
            neg = [('Ulnot', x) for x in self.arms]
            cj = conj(conds)
            g = conj(neg + [cj])
            self.arms.append(cj)
        elif kind == 'Else':
            g = conj([('Ulnot', x) for x in self.arms])
        elif kind == 'Then':
            g = self.last
        else:
            raise KeyError(kind)
        if kind != 'kwcond':
            self.last = g
        return g

    def add(self, kind, conds, opts, stmts, state=None):
        g = self.guard(kind, conds)
        ds = [opts.get('delay') or 0]
        if opts.get('keep'):
            ds = [ds[0] + i for i in range(opts['keep'])]
        for d in ds:
            for l, r in stmts:
                self.acts.append((g, d, bool(opts.get('eager')), bool(opts.get('lazy')), l, r, state))


def apply_api(s, o, env, fsm=False):
    """one chain operation through the API object s (Seq or FSM or State)"""
    kind, conds, opts, stmts = o
    B = lambda c: c01.build(c, env)
    sts = [c03.lhs_obj(l, env)(c03.rhs_obj(r, env)) for l, r in stmts]
    kw = {}
    if kind == 'If':
        s = s.If(*[B(c) for c in conds])
    elif kind == 'IfIf':
        for c in conds:
            s = s.If(B(c))
    elif kind == 'IfTuple':
        s = s.If([B(c) for c in conds])
    elif kind == 'Elif':
        s = s.Elif(*[B(c) for c in conds])
    elif kind == 'Else':
        s = s.Else
    elif kind == 'Then':
        s = s.Then()
    elif kind == 'kwcond':
        kw['cond'] = B(conds[0]) if len(conds) == 1 else [B(c) for c in conds]
    if opts.get('kw'):
        for a, b in (('delay', 'delay'), ('keep', 'keep'), ('eager', 'eager_val'), ('lazy', 'lazy_cond')):
            if opts.get(a) is not None:
                kw[b] = opts[a]
    else:
        if opts.get('delay') is not None:
            s = s.Delay(opts['delay'])
        if opts.get('keep') is not None:
            s = s.Keep(opts['keep'])
        if opts.get('eager'):
            s = s.EagerVal()
        if opts.get('lazy'):
            s = s.LazyCond()
    if opts.get('add'):
        s.add(*sts, **kw)
    else:
        s(*sts, **kw)


def declare(m, env, regs=None):
    for n, (w, s) in INS.items():
        env[n] = m.Input(n, w, signed=s)
    for n, (w, s, iv, dims) in (regs or REGS).items():
        env[n] = m.Reg(n, w, dims=dims, signed=s, initval=iv)


def ref_head(name, regs=None):
    L = ['module %s(input CLK, input RST, %s);' % (name, ', '.join('input %s[%d:0] %s' % ('signed ' if s else '', w - 1, n)
                                                                   for n, (w, s) in INS.items()))]
    for n, (w, s, iv, dims) in (regs or REGS).items():
        L.append('reg %s[%d:0] %s%s;' % ('signed ' if s else '', w - 1, n, '' if dims is None else ' [0:%d]' % (dims - 1)))
    return L


def ref_actions(acts, regs, reset_extra=(), state_sig=None, body_extra=(), norst=False, written=None, partial_init=()):
    """always block for a list of guarded actions (delayed ones via history registers)"""
    decl, hist, hreset, und, dly = [], [], [], [], {}
    F = c03.rhs_ref
    for k, (g, d, eager, lazy, l, r, st) in enumerate(acts):
        base = []
        if st is not None:
            base.append('(%s == %d)' % (state_sig, st))
        gtxt = '(|(%s))' % F(g) if g is not None else None
        val = F(r)
        if d == 0:
            c = ' && '.join(base + ([gtxt] if gtxt else [])) or "1'b1"
            und.append('if(%s) begin %s <= %s; end' % (c, c03.lhs_ref(l), val))
            continue
        c0 = list(base)
        if gtxt and not lazy:
            c0.append(gtxt)
        decl.append('reg [%d:0] hc%d;' % (d - 1, k))
        hist.append('hc%d <= {hc%d, (%s)};' % (k, k, ' && '.join(c0) or "1'b1"))
        hreset.append('hc%d <= 0;' % k)
        cc = 'hc%d[%d]' % (k, d - 1)
        if gtxt and lazy:
            cc += ' && ' + gtxt
        if eager:
            w, s = lhs_width(l, regs)
            for i in range(1, d + 1):
                decl.append('reg %s[%d:0] hv%d_%d;' % ('signed ' if s else '', w - 1, k, i))
                hist.append('hv%d_%d <= %s;' % (k, i, val if i == 1 else 'hv%d_%d' % (k, i - 1)))
                hreset.append('hv%d_%d <= 0;' % (k, i))
            val = 'hv%d_%d' % (k, d)
        dly.setdefault(d, []).append('if(%s) begin %s <= %s; end' % (cc, c03.lhs_ref(l), val))
    body = []
    for d in sorted(dly, reverse=True):
        body += dly[d]
    body += und
    rst = []
    parts = []
    for a in acts:
        parts += leaves(a[4])
    parts += [V(n) for n in (written or ())]
    for l in parts:
        iv = regs[l[1]][2]
        if iv is None:
            continue
        lsb = 0 if l[0] == 'v' else l[2] if l[0] == 'bit' else l[3]
        rst.append('%s <= %d;' % (c03.lhs_ref(l), (iv & 0xffff) >> lsb))
    L = decl + ['always @(posedge CLK) begin']
    if not norst:
        L += ['if(RST) begin'] + rst + hreset + list(reset_extra) + ['end else begin']
    L += hist + list(body_extra) + body
    if not norst:
        L.append('end')
    L.append('end')
    return L


def leaves(l):
    if l[0] == 'cat':
        return [y for x in l[1:] for y in leaves(x)]
    return [l]


def targets(l):
    if l[0] == 'cat':
        s = set()
        for x in l[1:]:
            s |= targets(x)
        return s
    return {l[1]}


def lhs_width(l, regs):
    if l[0] == 'v':
        return regs[l[1]][0], regs[l[1]][1]
    if l[0] in ('slice', 'slc'):
        return l[2] - l[3] + 1, False
    if l[0] == 'bit':
        return 1, False
    if l[0] == 'word':
        return regs[l[1]][0], False
    if l[0] == 'cat':
        return sum(lhs_width(x, regs)[0] for x in l[1:]), False
    raise KeyError(l)


def compare(c, hs, cycles, obs, label, reset='any', skip=0, warm=2):
    """drive all designs alike; obs: names or (name, elem)"""
    for h in hs:
        if h.has('RST'):
            h.set('RST', 1)
        for nm, (w, s) in INS.items():
            if h.has(nm):
                h.set(nm, 0)
    for _ in range(warm):
        for h in hs:
            h.step()
    for st in range(cycles):
        ins = {nm: c.fresh('%s_%s%d' % (nm, label, st), w) for nm, (w, s) in INS.items()}
        rst = c.fresh('RST_%s%d' % (label, st), 1) if reset == 'any' else t.const(0, 1)
        for h in hs:
            if h.has('RST'):
                h.set('RST', rst)
            for nm, v in ins.items():
                if h.has(nm):
                    h.set(nm, v)
            h.step()
        if st < skip:
            continue
        for o in obs:
            n, e = o if isinstance(o, tuple) else (o, None)
            vs = [h.get(n, e) for h in hs if h.has(n)]
            for v in vs[1:]:
                c.eqv('%s %s%s cycle %d' % (label, n, '' if e is None else '[%d]' % e, st), v, vs[0])


def obs_of(regs):
    out = []
    for n, v in regs.items():
        out += [n] if v[3] is None else [(n, i) for i in range(v[3])]
    return out

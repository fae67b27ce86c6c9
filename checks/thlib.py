"""Thread programs: the same Python source is compiled to a state machine by
veriloggen.thread and run natively by CPython on exact symbolic integers."""
import linecache
import re
from vlib import term as t
from vlib.term import const
from vlib import symint
from vlib.symint import SymInt, SymBool

_n = [0]


def load(src, env, name='th'):
    _n[0] += 1
    fn = '<prog-%s-%d>' % (name, _n[0])
    linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    exec(compile(src, fn, 'exec'), env)
    return env


class Box(object):
    """an output register seen from Python"""

    def __init__(self, name, width, signed=True, trace=None):
        object.__setattr__(self, 'name', name)
        object.__setattr__(self, 'w', width)
        object.__setattr__(self, 's', signed)
        object.__setattr__(self, 'v', 0)
        object.__setattr__(self, 'trace', trace)

    @property
    def value(self):
        return self.v

    @value.setter
    def value(self, x):
        x = norm(x)
        v = x.ext(self.w)
        x = SymInt(v) if self.s else SymInt(v.zx(self.w + 1))
        object.__setattr__(self, 'v', x._norm())
        if self.trace is not None:
            self.trace.append((self.name, term(self.v, self.w)))


def norm(x):
    if isinstance(x, SymBool):
        return x.int()
    if isinstance(x, SymInt):
        return x
    if x is None:
        return SymInt.of(0)
    return SymInt.of(x)


def term(x, w):
    return norm(x).ext(w)


class Prog(object):
    def __init__(self, src, main='prog', ins=('a', 'b'), outs=('o0', 'o1'), W=8, env=None, pre=None, iw=None, opts=None,
                 thopts=None, start=None, lim=None):
        self.src, self.main, self.ins, self.outs, self.W = src, main, tuple(ins), tuple(o for o in outs if re.search(r'\b%s\b' % o, src)), W
        self.env = env or {}
        self.pre = pre
        self.iw = iw or {}
        self.thopts = thopts or {}
        self.start = start
        self.lim = lim

    def iwid(self, n):
        x = self.iw.get(n, self.W)
        return x if isinstance(x, tuple) else (x, True)

    # ---------------------------------------------------------------- hardware
    def gen(self, info):
        import veriloggen as vg
        import veriloggen.thread as vthread
        m = vg.Module('dut')
        clk, rst = m.Input('CLK'), m.Input('RST')
        env = dict(self.env)
        args = []
        for n in self.ins:
            w, s = self.iwid(n)
            args.append(m.Input(n, w, signed=s))
            env[n] = args[-1]
        for n in self.outs:
            env[n] = m.OutputReg(n, self.W, initval=0, signed=True)
        env['vthread'] = vthread
        env['m'], env['CLK'], env['RST'] = m, clk, rst
        env['_args'] = args
        load(self.src, env)
        env['_th'] = vthread.Thread(m, 'th', clk, rst, env[self.main], datawidth=self.W, **self.thopts)
        load(self.start or '_fsm = _th.start(*_args)\n', env)
        info['end'] = env['_th'].end_state
        info['states'] = env['_fsm'].state_count if hasattr(env['_fsm'], 'state_count') else None
        return m

    # ------------------------------------------------------------------ native
    def native(self, c, vals):
        """-> ({out: term}, trace, prints)"""
        symint.set_ctx(c)
        trace, prints = [], []
        env = dict(self.env)
        boxes = {n: Box(n, self.W, True, trace) for n in self.outs}
        env.update(boxes)

        def pr(*args):
            f, vs = [], []
            for a in args:
                for x in (a if isinstance(a, tuple) else (a,)):
                    if isinstance(x, Fmt):
                        f.append(x.f)
                        vs.extend(x.v)
                    elif isinstance(x, str):
                        f.append(x)
                    else:
                        f.append('%d')
                        vs.append(norm(x).rng().v)
            prints.append((' '.join(f), vs))
        env['print'] = pr
        env['int'] = lambda x: x
        env['vthread'] = None
        load(self.src, env)
        # symbolic conditions on int subclasses: variables of the program hold exact integers
        SymInt.LIMIT = self.lim or self.W
        env[self.main](*vals)
        return {n: term(b.v, self.W) for n, b in boxes.items()}, trace, prints


class Fmt(object):
    def __init__(self, f, v):
        self.f, self.v = f, v


def scenario(prog, maxsteps=200, pre=None, displays=False, trace=False, extra=0):
    def sc(c):
        box = c.built('info', dict)
        txt = c.verilog('d', lambda: prog.gen(box))
        end = box['end']
        symint.set_ctx(c)
        vals = []
        h_in = {}
        for n in prog.ins:
            w, s = prog.iwid(n)
            v = c.fresh(n, w)
            h_in[n] = v
            vals.append(SymInt(v if s else v.zx(w + 1)))
        SymInt.LIMIT = prog.lim or prog.W
        if pre is not None:
            pre(c, *[SymInt(v.v) for v in vals])
        outs, tr, prints = prog.native(c, vals)
        h = c.hw(txt, 'dut', autosplit=True)
        for n, v in h_in.items():
            h.set(n, v)
        h.reset()
        got = []
        cur = {n: h.get(n) for n in prog.outs}
        for s in range(maxsteps):
            st = h.get('th')
            if st.op == 'const' and t.sval(st) == end:
                break
            h.step()
            if trace:
                for n in prog.outs:
                    v = h.get(n)
                    cur[n] = v
        st = h.get('th')
        c.check('the thread finishes', st.eq(end), 'state after %d cycles' % maxsteps)
        for n in prog.outs:
            c.check('%s after the program' % n, h.get(n).eq(outs[n]))
        if displays or prints:
            c.check_displays('print', h, prints)
        h.step()
        h.step()
        c.check('the thread stays finished', h.get('th').eq(end))
        for n in prog.outs:
            c.check('%s keeps its final value' % n, h.get(n).eq(outs[n]))
    return sc

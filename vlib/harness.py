"""Scenario runner: symbolic execution of generated RTL / of real Python
functions, obligations to z3, replay of counterexamples with Icarus Verilog."""
import fnmatch
import json
import multiprocessing
import os
import random
import re
import signal
import sys
import time
import traceback

from . import term as t
from . import vsim
from . import ivl
from .term import const

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')


class Violation(Exception):
    """raised by a scenario for a concretely observed breach (e.g. generator crash)"""


class Infeasible(BaseException):
    """path condition is unsatisfiable"""


class Inconclusive(Exception):
    pass


class BuildFailure(Exception):
    """veriloggen raised, or emitted illegal Verilog, for a supported program"""


HARD_S = 780        # wall-clock budget of a thorough run


class Budget(object):
    query_ms = 120000
    max_paths = 4000


# ------------------------------------------------------------------ hardware
class HW(object):
    def __init__(self, c, idx, text, top, clk, params, initzero, autosplit, clocks, prefix=None):
        self.c = c
        self.idx = idx
        self.text = text
        self.top = top
        self.clk = clk
        self.params = params
        self.initzero = initzero
        self.autosplit = autosplit
        self.clocks = clocks or ((clk,) if clk else ())
        self.steps = []          # [(inputs {name: term}, clk)]
        self.cur = {}
        self.obs = []            # per step {(path, elem): term}
        self.curobs = {}
        self.row = 0
        self.design = c._design(idx, text, top, params)
        if c.mode == 'sym':
            self.sim = vsim.Sim(self.design, initzero=initzero, prefix=prefix or 'h%d.' % idx)
        else:
            self.sim = None
            self.rows = c.replay_rows[idx]
        self.widths = {s.name: s.w for s in self.design.sigs}
        self.clocks = tuple(k for k in self.clocks if k in self.widths)
        if self.clk not in self.clocks:
            self.clk = None        # purely combinational design

    def width(self, name):
        return self.widths[name]

    def inputs(self):
        return [s for s in self.design.sigs if s.dir == 'input' and '.' not in s.name]

    def outputs(self):
        return [s for s in self.design.sigs if s.dir == 'output' and '.' not in s.name]

    def set(self, name, v):
        w = self.widths[name]
        if not isinstance(v, t.T):
            v = const(v, w)
        if v.w != w:
            raise ValueError('%s is %d bits, driven with %d' % (name, w, v.w))
        v = self.c.simp(v)
        self.cur[name] = v
        if self.sim is not None:
            self.sim.set(name, v)
        return v

    def get(self, name, elem=None):
        k = (name, elem)
        if self.sim is not None:
            v = self.c.simp(self.sim.get(name, elem))
            self.curobs[k] = v
            return v
        r = self.rows[self.row]
        v = r.get(k)
        if v is None:
            raise ReplayMismatch('%s not observed in replay at step %d' % (k, self.row))
        return v

    def has(self, name):
        return name in self.widths

    def hiername(self, path, elem):
        if elem is None:
            return path
        for s in self.design.sigs:
            if s.name == path:
                return path + vsim.Sim.elemtext(s, elem)
        return hname(path, elem)

    def step(self, clk=None):
        clk = clk or self.clk
        self.steps.append((dict(self.cur), clk))
        self.obs.append(self.curobs)
        self.curobs = {}
        self.row += 1
        self.c.nstep += 1
        if self.sim is None:
            return
        # undriven inputs get an explicit symbolic value
        for s in self.inputs():
            if s.name not in self.cur and s.name not in self.clocks:
                v = self.sim.value(s)
                self.steps[-1][0][s.name] = v
        if clk is None:
            self.sim.cycle += 1
            self.sim.comb = {}
        else:
            self.sim.step(clk)
        for n, v in self.cur.items():
            self.sim.set(n, v)
        if self.autosplit:
            for s in self.design.case_sigs:
                if s.drv != 'state':
                    continue
                v = self.sim.st.get(s)
                if v is not None and v.op != 'const':
                    x = self.c.value(v)
                    self.sim.poke(s, const(x, s.w))

    def run(self, n):
        for _ in range(n):
            self.step()

    def reset(self, rst='RST', n=2, active=1):
        self.set(rst, active)
        for _ in range(n):
            self.step()
        self.set(rst, 1 - active)

    def displays(self):
        """$display calls so far on this path: symbolic [(format, [(term, signed)])]; replay: text lines"""
        if self.sim is None:
            return [' '.join(l.split()) for n, l in self.c.replay_disp[self.idx]]
        out = []
        for cyc, g, name, args in self.sim.events:
            if name not in ('$display',):
                continue
            g = self.c.simp(g)
            if self.c.branch(g):
                out.append((args[0] if args else '', [(self.c.simp(v), s) for v, s in args[1:]]))
        return out

    def finish_row(self):
        """record the observations after the last clock edge"""
        self.steps.append((dict(self.cur), None))
        if self.sim is not None:
            for s in self.inputs():
                if s.name not in self.cur and s.name not in self.clocks and s in self.sim.inp:
                    self.steps[-1][0][s.name] = self.sim.inp[s]
        self.obs.append(self.curobs)
        self.curobs = {}


class ReplayMismatch(Exception):
    pass


# ------------------------------------------------------------------- context
class Ctx(object):
    def __init__(self, sc, mode='sym', prefix=(), model=None, replay_rows=None, cache=None, deadline=None):
        self.sc = sc
        self.mode = mode
        self.prefix = list(prefix)
        self.trail = []           # decisions taken on this path
        self.alts = []            # alternatives discovered
        self.model = model or {}
        self.replay_rows = replay_rows
        self.cache = cache if cache is not None else {}
        self.assumes = []
        self.checks = []          # (name, n_assumes, term, info)
        self.covers = []
        self.submap = {}
        self._memo = {}
        self.hws = []
        self.nstep = 0
        self.fresh_n = {}
        self.deadline = deadline
        self.notes = []
        self.tier = TIER
        self.known = sc.known

    # ----------------------------------------------------------- construction
    def built(self, key, fn):
        """run a builder once per scenario (not once per path)"""
        if key not in self.cache:
            self.cache[key] = build_guard(fn)
        return self.cache[key]

    def verilog(self, key, fn, **kw):
        """fn() -> veriloggen Module; -> Verilog text"""
        text = self.built(('v', key), lambda: to_text(fn, **kw))
        self.cache.setdefault('gen', set()).add(text)
        return text

    def _design(self, idx, text, top, params):
        k = ('d', idx, hash(text), top, tuple(sorted((params or {}).items())))
        if k not in self.cache:
            try:
                self.cache[k] = vsim.Design(text, top, params)
            except (vsim.ElabError, vsim.vparse.VSyntaxError) as e:
                ok, msg = ivl.legal(text)
                if not ok:
                    raise BuildFailure('generated text is not legal Verilog: %s / %s' % (e, msg))
                raise
        return self.cache[k]

    def hw(self, text, top=None, clk='CLK', params=None, initzero=False, autosplit=False, clocks=None, prefix=None):
        if top is None:
            top = find_top(text)
        h = HW(self, len(self.hws), text, top, clk, params, initzero, autosplit, clocks, prefix)
        self.hws.append(h)
        return h

    # --------------------------------------------------------------- symbols
    def fresh(self, name, w):
        n = self.fresh_n.get(name, 0)
        self.fresh_n[name] = n + 1
        full = name if n == 0 else '%s#%d' % (name, n)
        if self.mode == 'replay':
            return const(self.model.get(full, 0), w)
        return self.simp(t.var(full, w))

    def simp(self, v):
        if not self.submap or v.op == 'const':
            return v
        return t.rewrite([v], self.submap, self._memo)[0]

    def assume(self, c):
        if isinstance(c, bool):
            c = const(c, 1)
        c = self.simp(c)
        if c.op == 'const':
            if not c.val:
                if self.mode == 'replay':
                    raise ReplayMismatch('assumption false in replay')
                raise Infeasible()
            return
        self.assumes.append(c)

    def check(self, name, c, info=None):
        if isinstance(c, bool):
            c = const(c, 1)
        if c.w != 1:
            raise ValueError('check width')
        self.checks.append((name, len(self.assumes), self.simp(c), info))

    def cover(self, name, c=True):
        if isinstance(c, bool):
            c = const(c, 1)
        self.covers.append((name, len(self.assumes), self.simp(c)))

    # -------------------------------------------------------------- branching
    def _sat(self, extra):
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive('scenario time budget exhausted')
        r, m = t.check(self.assumes + extra, Budget.query_ms)
        if r == 'unknown':
            raise Inconclusive('solver: %s' % m)
        return r == 'sat', m

    def branch(self, cond):
        if isinstance(cond, (bool, int)):
            return bool(cond)
        cond = self.simp(cond)
        if cond.op == 'const':
            return bool(cond.val)
        if cond.w != 1:
            cond = t.redor(cond)
            if cond.op == 'const':
                return bool(cond.val)
        if self.mode != 'sym':
            raise TypeError('symbolic branch in replay')
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            a, _ = self._sat([cond])
            if not a:
                d = False
                b = True
                # the other side is then the whole path; feasibility of the
                # path itself is an invariant
                self.trail.append(d)
                self._take(cond, d, implied=True)
                return d
            b, _ = self._sat([t.not_(cond)])
            d = True
            if b:
                self.alts.append(self.trail + [False])
        self.trail.append(d)
        self._take(cond, d)
        return d

    def _take(self, cond, d, implied=False):
        c = cond if d else t.not_(cond)
        self.assumes.append(c)
        self.learn(c)

    def learn(self, c):
        sub = {}
        st = [c]
        while st:
            x = st.pop()
            if x.op == 'and':
                st.extend(x.args)
                sub[x] = t.true()
            elif x.op == 'not':
                y = x.args[0]
                sub[y] = t.false()
                if y.op == 'or':
                    st.extend(t.not_(z) for z in y.args)
            elif x.op == 'eq' and x.args[1].op == 'const':
                sub[x.args[0]] = x.args[1]
                sub[x] = t.true()
            elif x.op != 'const':
                sub[x] = t.true()
        self.submap.update(sub)
        self._memo = {}
        for h in self.hws:
            if h.sim is not None:
                h.sim.subst(self.submap)
                cur = dict(h.cur)
                for n, v in cur.items():
                    h.cur[n] = v2 = self.simp(v)
                    h.sim.set(n, v2)

    def value(self, v, limit=4096):
        """case split: returns a Python int"""
        n = 0
        while True:
            v = self.simp(v)
            if v.op == 'const':
                return v.val
            if n > limit:
                raise Inconclusive('too many values in a case split')
            cand = self._pick(v)
            if self.branch(t.eq(v, const(cand, v.w))):
                return cand
            n += 1

    def _pick(self, v):
        # constant leaves first (deterministic), else a model value
        st, leaves, seen = [v], [], set()
        while st and len(seen) < 2000:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'const':
                leaves.append(x.val)
            elif x.op == 'ite':
                st.extend(x.args[1:])
            else:
                leaves = None
                break
        if leaves:
            for l in sorted(set(leaves)):
                e = self.simp(t.eq(v, const(l, v.w)))
                if not t.isz(e):
                    # skip values already excluded on this path
                    if e.op == 'const':
                        return l
                    i = len(self.trail)
                    if i < len(self.prefix):
                        return l
                    ok, _ = self._sat([e])
                    if ok:
                        return l
                    self.assumes.append(t.not_(e))
                    self.learn(t.not_(e))
        key = ('pick', tuple(self.trail))
        picks = self.cache.setdefault('picks', {})
        if key in picks:
            return picks[key]
        r, m = t.check(self.assumes + [t.or_(t.eq(v, v), t.true())], Budget.query_ms)
        ok, m = self._sat([])
        val = t.evaluate([v], m)[0]
        picks[key] = val
        return val

    def check_displays(self, name, h, expected):
        """expected: [(format, [term or int])]; every %d is decimal"""
        got = h.displays()
        if self.mode == 'replay':
            want = []
            for f, vs in expected:
                vs = [t.sval(v) if isinstance(v, t.T) else v for v in vs]
                want.append(' '.join((re.sub(r'%\d*d', '%d', f) % tuple(vs)).split()))
            self.check(name + ' (output text)', got == want, 'printed %s, expected %s' % (got, want))
            return
        if len(got) == len(expected) and all(isinstance(f, str) for f, a in got) and not any(
                a for f, a in expected) and self.mode == 'sym':
            got = [(f, [(const(self.value(v), v.w), sg) for v, sg in a]) for f, a in got]

            def render(f, a):
                vs = [t.sval(v) if sg else v.val for v, sg in a]
                return ' '.join((re.sub(r'%0?h', '%x', re.sub(r'%\d*d', '%d', f)) % tuple(vs)).split())
            g = [render(f, a) for f, a in got]
            e = [' '.join(f.split()) for f, a in expected]
            self.check(name + ' (output text)', g == e, 'prints %s, expected %s' % (g, e))
            return
        sh = [(f, len(a)) for f, a in got]
        if not all(isinstance(f, str) for f, n in sh) or [(f.split(), n) for f, n in sh] != [(f.split(), len(a)) for f, a in expected]:
            self.check(name + ' (output text)', False, 'prints %s, expected %s' % (sh, [(f, len(a)) for f, a in expected]))
            return
        for i, ((f, ga), (_, ea)) in enumerate(zip(got, expected)):
            for j, ((gv, sg), ev) in enumerate(zip(ga, ea)):
                if not isinstance(ev, t.T):
                    ev = const(ev, 64)
                w = max(gv.w, ev.w) + 1
                self.check('%s (value %d of line %d)' % (name, j, i), (gv.sx(w) if sg else gv.zx(w)).eq(ev.sx(w)))

    # ------------------------------------------------------------ equivalence
    def eqv(self, name, a, b, info=None):
        self.check(name, t.eq(a, b), info)


def find_top(text):
    mods = re.findall(r'^\s*module\s+(\w+)', text, re.M)
    inst = set()
    for m in mods:
        if re.search(r'^\s*%s\s*(#|\w+\s*\n?\s*\()' % m, text, re.M):
            inst.add(m)
    tops = [m for m in mods if m not in inst]
    return tops[0] if len(tops) >= 1 else mods[0]


def build_guard(fn):
    import veriloggen
    try:
        veriloggen.reset()
        return fn()
    except (Violation, BuildFailure, Infeasible):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any('/veriloggen/' in f.filename for f in tb) or any('/pyverilog/' in f.filename for f in tb):
            last = [f for f in tb if '/veriloggen/' in f.filename][-1:]
            raise BuildFailure('%s: %s (%s)' % (type(e).__name__, e, ', '.join(
                '%s:%d' % (os.path.basename(f.filename), f.lineno) for f in last)))
        raise


def to_text(fn, **kw):
    m = fn()
    if isinstance(m, str):
        return m
    return m.to_verilog(**kw)


# ------------------------------------------------------------------ scenarios
class Scenario(object):
    def __init__(self, name, fn, tier, kw):
        self.name = name
        self.fn = fn
        self.tier = tier
        self.timeout = kw.pop('timeout', 300)
        self.bounds = kw.pop('bounds', '')
        self.known = kw.pop('known', None)
        self.validate = kw.pop('validate', True)
        self.novac = kw.pop('novac', False)
        self.kw = kw


class Registry(object):
    def __init__(self, pid, level, functions, assumptions=(), explanation=''):
        self.pid = pid
        self.level = level
        self.functions = functions
        self.assumptions = list(assumptions)
        self.explanation = explanation
        self.scenarios = []

    def scenario(self, name, tier='quick', **kw):
        def deco(fn):
            self.scenarios.append(Scenario(name, fn, tier, dict(kw)))
            return fn
        return deco

    def add(self, name, fn, tier='quick', **kw):
        self.scenarios.append(Scenario(name, fn, tier, dict(kw)))


# ----------------------------------------------------------- one scenario run
REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = REPO + '/veriloggen/'
_funcs = set()


def trace_functions():
    mon = getattr(sys, 'monitoring', None)
    if mon is None:
        return
    tid = 4
    try:
        mon.use_tool_id(tid, 'verif')
    except ValueError:
        return

    def start(code, off):
        f = code.co_filename
        i = f.find('/veriloggen/veriloggen/')
        if PKG in f:
            _funcs.add('%s:%s' % (f.split(PKG)[1], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


def observed_list(h):
    ks = []
    seen = set()
    for o in h.obs:
        for k in o:
            if k not in seen:
                seen.add(k)
                ks.append(k)
    return ks


def hname(path, elem):
    return path + ('[%d]' % elem if elem is not None else '')


def concretise(c, model):
    """concrete runs of every HW of a symbolic context under a model ->
    list of (rows dicts, mismatches)"""
    out = []
    mism = []
    c.disp = disps = []
    for h in c.hws:
        ks = observed_list(h)
        steps = []
        ports = {s.name: s.w for s in h.inputs() if s.name not in h.clocks}
        for inp, clk in h.steps:
            names = [n for n in inp if n in ports]
            vals = t.evaluate([inp[n] for n in names], model)
            steps.append((dict(zip(names, vals)), clk))
        if not steps:
            out.append([])
            disps.append([])
            continue
        deps = []
        if not h.initzero:
            for key, v in h.sim.initvars.items():
                deps.append((h.sim.keyname(key), v.w, model.get(v.val, 0) & t.mask(v.w)))
        else:
            for key, v in h.sim.st.items():
                pass
        obs = []
        for (p, e) in ks:
            obs.append((hname(p, e), h.hiername(p, e), h.widths[p]))
        try:
            rows, disp = ivl.run(h.text, h.top, steps, ports, obs, deps, params=h.params, clocks=h.clocks,
                                 extra_files=c.cache.get('extra_files'))
        except ivl.IvlError:
            if h.text in c.cache.get('gen', ()):
                ok, msg = ivl.legal(h.text)
                if not ok:
                    raise BuildFailure('generated text is not legal Verilog: %s' % msg)
            raise
        disps.append(disp)
        res = []
        for i, r in enumerate(rows):
            d = {}
            known = h.obs[i] if i < len(h.obs) else {}
            mk = [k for k in known]
            mv = dict(zip(mk, t.evaluate([known[k] for k in mk], model)))
            for k, v in zip(ks, r):
                w = h.widths[k[0]]
                if v is None:
                    if k in mv:
                        d[k] = const(mv[k], w)
                    continue
                d[k] = const(v, w)
                if k in mv and mv[k] != v:
                    mism.append((i, hname(*k), mv[k], v))
            res.append(d)
        out.append(res)
    return out, mism


def run_scenario(sc, pid):
    """-> result dict"""
    import veriloggen  # noqa
    t0 = time.time()
    res = {'name': sc.name, 'status': 'pass', 'paths': 0, 'steps': 0, 'checks': 0, 'covers': 0, 'validated': 0,
           'violations': [], 'notes': [], 'bounds': sc.bounds, 'replayed': 0}
    cache = {}
    deadline = t0 + sc.timeout
    work = [[]]
    nviol = 0
    covered = {}
    try:
        while work:
            prefix = work.pop()
            if time.time() > deadline:
                raise Inconclusive('scenario time budget exhausted (%d paths left)' % (len(work) + 1))
            c = Ctx(sc, 'sym', prefix, cache=cache, deadline=deadline)
            try:
                sc.fn(c)
                dead = False
            except Infeasible:
                dead = True
            for h in c.hws:
                h.finish_row()
            work.extend(c.alts)
            res['paths'] += 1
            res['steps'] += c.nstep
            res['checks'] += len(c.checks)
            if res['paths'] > Budget.max_paths:
                raise Inconclusive('path budget exhausted')
            v = discharge(c, res)
            if v is not None:
                name, model, info = v
                confirm(sc, pid, c, cache, name, model, info, res)
                nviol += 1
                break
            if dead:
                continue
            # reachability witnesses and encoding validation
            for name, na, term in c.covers:
                if covered.get(name):
                    continue
                r, m = t.check(c.assumes[:na] + [term], Budget.query_ms)
                if r == 'unknown':
                    raise Inconclusive('cover %s: %s' % (name, m))
                covered[name] = covered.get(name) or (r == 'sat')
                if r == 'sat' and sc.validate and res['validated'] < 2:
                    validate(c, m, res)
            if not c.covers or res['validated'] == 0:
                r, m = t.check(c.assumes, Budget.query_ms)
                if r == 'unknown':
                    raise Inconclusive('assumptions: %s' % m)
                if r == 'unsat':
                    if not dead and not sc.novac and res['paths'] == 1 and not work:
                        raise RuntimeError('vacuous: assumptions unsatisfiable')
                elif sc.validate and res['validated'] == 0:
                    validate(c, m, res)
        if not nviol:
            bad = [n for n, ok in covered.items() if not ok]
            if bad:
                raise RuntimeError('vacuous: cover(s) not reachable: %s' % bad[:5])
            if res['checks'] == 0:
                raise RuntimeError('vacuous: no obligations')
            res['covers'] = len(covered)
    except BuildFailure as e:
        # reproduce once more from scratch
        res['status'] = 'violation'
        res['violations'].append({'check': 'build', 'detail': str(e), 'model': {}, 'replayed': True})
    except Violation as e:
        res['status'] = 'violation'
        res['violations'].append({'check': 'concrete', 'detail': str(e), 'model': {}, 'replayed': True})
    except Inconclusive as e:
        res['status'] = 'inconclusive'
        res['notes'].append(str(e))
    except MemoryError:
        res['status'] = 'inconclusive'
        res['notes'].append('out of memory')
    except Exception as e:
        res['status'] = 'inconclusive' if 'out of memory' in str(e) else 'error'
        res['notes'].append('%s: %s' % (type(e).__name__, e))
        res['trace'] = traceback.format_exc()[-3000:]
    res['wall'] = time.time() - t0
    res['queries'] = t.STATS.queries
    res['solver_s'] = t.STATS.solver_s
    res['folded'] = t.STATS.folded
    res['funcs'] = sorted(_funcs)
    return res


def validate(c, model, res):
    """the encoding must agree with Icarus Verilog on a concrete trace"""
    if not c.hws:
        return
    # arbitrary values for the variables the model leaves open
    rnd = random.Random(SEED * 7919 + len(model))
    vs = {}
    for h in c.hws:
        for o in h.obs:
            vs.update(t.variables(o.values()))
        for inp, _ in h.steps:
            vs.update(t.variables(inp.values()))
    m = dict(model)
    free = set(vs) - set(t.variables(c.assumes))
    for n in sorted(free):
        m.setdefault(n, rnd.getrandbits(vs[n].w))
        if n not in model:
            m[n] = rnd.getrandbits(vs[n].w)
    rows, mism = concretise(c, m)
    if mism:
        raise RuntimeError('encoding disagrees with Icarus Verilog: %s' % (mism[:5],))
    res['validated'] += 1


def discharge(c, res):
    """-> None or (check name, model, info)"""
    viol = []
    for name, na, term, info in c.checks:
        if term.op == 'const' and term.val:
            t.STATS.folded += 1
            continue
        viol.append((name, na, term, info))
    if not viol:
        return None
    groups = {}
    for v in viol:
        groups.setdefault(v[1], []).append(v)
    # one query per assumption prefix; all prefixes merged when few
    for na in sorted(groups):
        vs = groups[na]
        bad = t.disj([t.not_(v[2]) for v in vs])
        r, m = t.check(c.assumes[:na] + [bad], Budget.query_ms)
        if r == 'unknown' and len(vs) > 1:
            for v in vs:
                r, m = t.check(c.assumes[:na] + [t.not_(v[2])], Budget.query_ms)
                if r != 'unsat':
                    vs = [v]
                    break
        if r == 'unknown':
            raise Inconclusive('%s: %s' % (vs[0][0], m))
        if r == 'sat':
            for v in vs:
                if not t.evaluate([v[2]], m)[0]:
                    return v[0], m, v[3]
            raise RuntimeError('model without a failing check')
    return None


def confirm(sc, pid, c, cache, name, model, info, res):
    """replay on the real artefact; records the violation or raises"""
    rec = {'check': name, 'model': {k: v for k, v in sorted(model.items())}, 'detail': str(info or '')}
    # complete the model
    if c.hws:
        rows, mism = concretise(c, model)
        if mism:
            raise RuntimeError('counterexample for %s: encoding disagrees with Icarus Verilog: %s' % (name, mism[:5]))
    else:
        rows = []
    r = Ctx(sc, 'replay', model=model, replay_rows=rows, cache=cache)
    r.replay_disp = getattr(c, 'disp', [])
    failed = None
    try:
        sc.fn(r)
    except Infeasible:
        pass
    except ReplayMismatch:
        # a later assumption (on values after the failing check) may be false
        if all(x[2].op != 'const' or x[2].val for x in r.checks):
            raise
    for n, na, term, i2 in r.checks:
        if term.op != 'const':
            raise RuntimeError('replay of %s is not concrete' % n)
        if not term.val and failed is None:
            failed = (n, i2)
    if failed is None:
        raise RuntimeError('counterexample for %s does not reproduce on the generated Verilog' % name)
    rec['replay_check'] = failed[0]
    rec['replayed'] = True
    rec['text'] = [(h.text, h.top) for h in c.hws]
    rec['stimulus'] = []
    for h in c.hws:
        st = []
        for inp, clk in h.steps:
            ns = sorted(inp)
            st.append((dict(zip(ns, t.evaluate([inp[n] for n in ns], model))), clk))
        rec['stimulus'].append(st)
    res['status'] = 'violation'
    res['replayed'] += 1
    res['violations'].append(rec)


# -------------------------------------------------------------------- workers
def _child(sc, pid, conn):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    except Exception:
        pass
    os.environ['PYTHONHASHSEED'] = '0'
    t.reset()
    t.STATS.__init__()
    random.seed(SEED)
    scratch = '/tmp/vscratch.%d' % os.getpid()
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    try:
        res = run_scenario(sc, pid)
    except BaseException as e:
        res = {'name': sc.name, 'status': 'error', 'notes': ['%s: %s' % (type(e).__name__, e)],
               'trace': traceback.format_exc()[-3000:], 'violations': [], 'wall': 0}
    import shutil
    os.chdir('/')
    shutil.rmtree(scratch, ignore_errors=True)
    try:
        conn.send(res)
    except Exception as e:
        conn.send({'name': sc.name, 'status': 'error', 'notes': ['send: %s' % e], 'violations': [], 'wall': 0})
    conn.close()
    os._exit(0)


def run_all(scs, pid, jobs=8, hard=None):
    ctx = multiprocessing.get_context('fork')
    todo = list(scs)
    live = {}
    results = []
    # long ones first
    todo.sort(key=lambda s: (s.tier == 'thorough', -s.kw.get('weight', 1)))
    while todo or live:
        if hard and time.time() > hard:
            for sc in [s for s in todo if s.tier == 'thorough']:
                results.append({'name': sc.name, 'status': 'inconclusive', 'notes': ['not started'], 'violations': [], 'wall': 0})
            todo = [s for s in todo if s.tier != 'thorough']
        while todo and len(live) < jobs:
            sc = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(sc, pid, b))
            p.start()
            b.close()
            live[p.pid] = (p, a, sc, time.time())
        ready = multiprocessing.connection.wait([x[1] for x in live.values()], timeout=1.0)
        for k in list(live):
            p, a, sc, st = live[k]
            if a in ready:
                try:
                    r = a.recv()
                except EOFError:
                    r = {'name': sc.name, 'status': 'error', 'notes': ['worker died'], 'violations': [], 'wall': 0}
                p.join()
                results.append(r)
                del live[k]
            elif time.time() - st > sc.timeout * 1.5 + 60 or (hard and time.time() > hard and sc.tier == 'thorough'):
                p.kill()
                p.join()
                import shutil
                shutil.rmtree('/tmp/vscratch.%d' % k, ignore_errors=True)
                results.append({'name': sc.name, 'status': 'inconclusive', 'notes': ['hard timeout'],
                                'violations': [], 'wall': time.time() - st})
                del live[k]
    return results


def load_known():
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) scenario=(\S+) check=(\S+) (.*)$', l.strip())
            if m:
                out.append(m.groups())
    return out


def is_known(known, pid, scn, chk):
    for p, s, c, what in known:
        if p == pid and fnmatch.fnmatchcase(scn, s) and fnmatch.fnmatchcase(chk, c):
            return what
    return None


def main(reg, argv):
    import multiprocessing.connection  # noqa
    t0 = time.time()
    tier = TIER
    only = None
    args = list(argv)
    verbose = False
    while args:
        a = args.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '-v':
            verbose = True
        elif a == '-k':
            only = args.pop(0)
    import veriloggen
    if not os.path.realpath(veriloggen.__file__).startswith(REPO + '/'):
        print('ERROR: veriloggen is not imported from ' + REPO)
        return 2
    trace_functions()
    scs = [s for s in reg.scenarios if (tier == 'thorough' or s.tier == 'quick')]
    if only:
        scs = [s for s in scs if re.search(only, s.name)]
    names = [s.name for s in scs]
    assert len(set(names)) == len(names), 'duplicate scenario names'
    jobs = int(os.environ.get('VERIF_JOBS', '8'))
    if tier == 'thorough':
        Budget.query_ms = 600000
    results = run_all(scs, reg.pid, jobs, t0 + HARD_S if tier == 'thorough' else None)
    deep = set(s.name for s in scs if s.tier == 'thorough')
    known = load_known()
    viol, kf, err = [], [], []
    rdir = os.path.join(ROOT, 'replays', reg.pid)
    for r in results:
        if r['status'] == 'violation':
            for v in r['violations']:
                w = is_known(known, reg.pid, r['name'], v.get('replay_check', v['check']))
                if w is not None:
                    kf.append((r, v, w))
                    continue
                os.makedirs(rdir, exist_ok=True)
                path = os.path.join(rdir, re.sub(r'\W+', '_', r['name']) + '.json')
                with open(path, 'w') as f:
                    json.dump({'property': reg.pid, 'scenario': r['name'], **v}, f, indent=1, default=str)
                viol.append((r, v, path))
        elif r['status'] == 'inconclusive' and r['name'] in deep:
            # a deeper bound the time budget did not cover: reported, not claimed
            r['status'] = 'unexplored'
        elif r['status'] in ('error', 'inconclusive'):
            err.append(r)
        if verbose:
            print('%-44s %-12s paths=%s steps=%s checks=%s q=%s solver=%.1fs wall=%.1fs val=%s %s' % (
                r['name'], r['status'], r.get('paths'), r.get('steps'), r.get('checks'), r.get('queries'),
                r.get('solver_s') or 0, r['wall'], r.get('validated'), '; '.join(r.get('notes', []))[:300]))
            if r['status'] == 'error' and r.get('trace'):
                print(r['trace'])
            for v in r['violations']:
                print('    VIOL', v['check'], v.get('replay_check'), v['detail'][:300],
                      {k: v2 for k, v2 in list(v['model'].items())[:12]})
    for r, v, w in kf:
        print('KNOWN-FINDING: property=%s %s [scenario %s, check %s]' % (reg.pid, w, r['name'], v['check']))
    for r, v, path in viol:
        print('VIOLATION property=%s replay=%s' % (reg.pid, path))
        print('  scenario %s, check %s %s' % (r['name'], v.get('replay_check', v['check']), v['detail'][:400]))
    for r in err:
        print('%s: scenario %s: %s' % (r['status'].upper(), r['name'], '; '.join(r['notes'])[:600]))
    funcs = set()
    for r in results:
        funcs.update(r.get('funcs', ()))
    # evidence
    S = lambda k: sum(r.get(k) or 0 for r in results)
    samples = [{'scenario': r['name'], 'bound': r.get('bounds'), 'paths': r.get('paths'), 'clock_steps': r.get('steps'),
                'obligations': r.get('checks'), 'queries': r.get('queries'), 'status': r['status'],
                'solver_s': round(r.get('solver_s') or 0, 2)} for r in sorted(results, key=lambda r: r['name'])]
    fl = sorted(funcs)
    cov = {
        'explanation': reg.explanation,
        'bounds': sorted(set('%s' % r.get('bounds') for r in results if r.get('bounds')))[:60],
        'functions_encoded': fl[:200],
        'functions_encoded_count': len(fl),
        'scenarios': len(results),
        'symbolic_paths': S('paths'),
        'obligations_stated': S('checks'),
        'queries_discharged': S('queries'),
        'obligations_folded_to_constants': S('folded'),
        'solver_s': round(S('solver_s'), 2),
        'reachability_witnesses': S('covers'),
        'counterexamples_replayed': S('replayed'),
        'unexplored_deeper_bounds': sorted(r['name'] for r in results if r['status'] == 'unexplored'),
        'inconclusive': len([r for r in results if r['status'] == 'inconclusive']),
        'samples': samples[:80],
    }
    if reg.level == 'model_checking':
        cov['states'] = S('steps') + S('paths')
        cov['transitions'] = S('steps')
        cov['traces_validated_against_impl'] = S('validated')
    elif reg.level == 'translation_validation':
        cov['programs'] = len(results)
        cov['disagreements_checked'] = S('checks')
        cov['traces_validated_against_impl'] = S('validated')
    ev = {'property': reg.pid, 'tier': tier, 'seed': SEED, 'level': reg.level, 'coverage': cov,
          'assumptions': reg.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if not only:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', reg.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d scenarios, %d paths, %d clock steps, %d obligations, %d queries (%.1fs solver), %d validated '
          'traces, %d violations, %d known, %d inconclusive/error, wall %.1fs' % (
              reg.pid, tier, len(results), S('paths'), S('steps'), S('checks'), S('queries'), S('solver_s'),
              S('validated'), len(viol), len(kf), len(err), time.time() - t0))
    if viol:
        return 1
    if err:
        return 2
    return 0

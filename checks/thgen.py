"""Deterministic generator of small Python programs in the thread subset."""
import random


class Gen(object):
    def __init__(self, seed, loops=False, calls=False):
        self.r = random.Random(seed)
        self.vars = ['a', 'b']
        self.loops = loops
        self.calls = calls
        self.nv = 0
        self.nl = 0
        self.depth = 0
        self.tag = 0

    def atom(self):
        r = self.r.random()
        if r < 0.75:
            return self.r.choice(self.vars)
        return str(self.r.randint(-4, 9))

    def expr(self, d=2):
        r = self.r.random()
        if d == 0 or r < 0.25:
            return self.atom()
        if r < 0.8:
            o = self.r.choice(['+', '-', '+', '-', '&', '|', '^', '*'])
            if o == '*':
                return '(%s * %s)' % (self.expr(d - 1), self.r.choice(['2', '3', '-1']))
            return '(%s %s %s)' % (self.expr(d - 1), o, self.expr(d - 1))
        if r < 0.88:
            return '(%s%s)' % (self.r.choice('-~'), self.expr(d - 1))
        if r < 0.94:
            return '(%s if %s else %s)' % (self.expr(d - 1), self.cond(1), self.expr(d - 1))
        return '(%s << %d)' % (self.atom(), self.r.randint(1, 3))

    def cond(self, d=1):
        r = self.r.random()
        if d and r < 0.25:
            return '(%s %s %s)' % (self.cond(d - 1), self.r.choice(['and', 'or']), self.cond(d - 1))
        if r < 0.32:
            return '(not %s)' % self.cond(max(d - 1, 0))
        if r < 0.4:
            return self.r.choice(self.vars)
        return '%s %s %s' % (self.r.choice(self.vars), self.r.choice(['<', '<=', '>', '>=', '==', '!=']), self.atom())

    def target(self):
        vs = [v for v in self.vars if v.startswith('x')]
        if vs and (self.r.random() < 0.6 or self.nv >= 3 or self.depth > 0):
            return self.r.choice(vs)
        self.nv += 1
        return 'x%d' % self.nv

    def stmt(self, ind, inloop, infunc=False):
        p = '    ' * ind
        r = self.r.random()
        if r < 0.42:
            e = self.expr()
            v = self.target()
            if v not in self.vars:
                self.vars.append(v)
            return [p + '%s = %s' % (v, e)]
        vs = [v for v in self.vars if v.startswith('x')]
        if r < 0.55 and vs:
            return [p + '%s %s= %s' % (self.r.choice(vs), self.r.choice('+-|^&'), self.expr(1))]
        if r < 0.6 and len(vs) > 1:
            u, v = self.r.sample(vs, 2)
            return [p + '%s, %s = %s, %s' % (u, v, self.expr(1), self.expr(1))]
        if r < 0.85 and ind < 4:
            out = [p + 'if %s:' % self.cond()] + self.block(ind + 1, inloop, infunc)
            while self.r.random() < 0.3:
                out += [p + 'elif %s:' % self.cond()] + self.block(ind + 1, inloop, infunc)
            if self.r.random() < 0.5:
                out += [p + 'else:'] + self.block(ind + 1, inloop, infunc)
            return out
        if self.loops and self.nl < 2 and ind < 3:
            self.nl += 1
            i = self.nl
            k = self.r.random()
            if k < 0.5:
                lv = 'i%d' % i
                n = self.r.choice(['2', '3', 'n', '1, 3', '0, n + 1', '0, 4, 2', '3, 0, -1'])
                self.vars.append(lv)
                out = [p + 'for %s in range(%s):' % (lv, n)] + self.block(ind + 1, True, infunc)
                self.vars.remove(lv)
                return out
            lv = 'w%d' % i
            out = [p + '%s = 0' % lv, p + 'while %s < %s:' % (lv, self.r.choice(['2', '3', 'n + 1']))]
            out += [p + '    %s += 1' % lv]
            self.vars.append(lv)
            out += self.block(ind + 1, True, infunc)
            self.vars.remove(lv)
            return out
        if inloop and r < 0.96 and ind > 1:
            return [p + self.r.choice(['break', 'continue'])]
        if infunc and ind > 1:
            return [p + 'return %s' % self.expr(1)]
        if self.calls and self.depth == 0:
            e = self.call()
            v = self.target()
            if v not in self.vars:
                self.vars.append(v)
            return [p + '%s = %s' % (v, e)]
        e = self.expr()
        return [p + 'o0.value = %s' % e]

    def call(self):
        f = self.r.choice(self.calls)
        k = self.r.randint(0, 3)
        x, y = self.expr(1), self.expr(1)
        return ['%s(%s, %s)', '%s(%s, q=%s)', '%s(q=%s, p=%s)', '%s(%s) + %s'][k] % (f, x, y)

    def block(self, ind, inloop, infunc=False):
        self.depth += 1
        out = []
        for _ in range(self.r.choice([1, 1, 2])):
            out += self.stmt(ind, inloop, infunc)
        if self.loops or self.calls:
            self.tag += 1
            if self.r.random() < 0.6 and not out[-1].strip() in ('break', 'continue') and not out[-1].strip().startswith('return'):
                out.append('    ' * ind + 'o1.value += %d' % self.tag)
        self.depth -= 1
        return out

    def prog(self, n):
        out = ['    x0 = a', '    o0.value = 0', '    o1.value = 0']
        self.vars.append('x0')
        for _ in range(n):
            out += self.stmt(1, False)
        out.append('    o0.value ^= %s' % ' ^ '.join(v for v in self.vars if v.startswith('x')))
        return 'def prog(a, b%s):\n' % (', n' if self.loops else '') + '\n'.join(out) + '\n'

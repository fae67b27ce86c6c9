"""Verilog-2001 subset parser (the text veriloggen emits) -> tuple AST."""
import re


class VSyntaxError(Exception):
    pass


TOK = re.compile(r'''
   (?P<ws>\s+|//[^\n]*|/\*.*?\*/|\(\*(?!\s*\)).*?\*\)|`timescale[^\n]*|`default_nettype[^\n]*)
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<num>(?:\d[\d_]*)?\s*'\s*[sS]?[bBoOdDhH]\s*[0-9a-fA-FxXzZ?_]+ | \d[\d_]*\.\d+(?:[eE][+-]?\d+)? | \d[\d_]*)
 | (?P<id>\\\S+ | [A-Za-z_][A-Za-z0-9_$]*)
 | (?P<sys>\$[A-Za-z_][A-Za-z0-9_$]*)
 | (?P<op><<<|>>>|===|!==|&&&|<<|>>|<=|>=|==|!=|&&|\|\||\*\*|~&|~\||~\^|\^~|\+:|-:|->|[-+*/%<>!~&|^?:;,.(){}\[\]=@\#])
''', re.X | re.S)

KW = set('''module endmodule input output inout wire reg integer signed parameter localparam assign always
 initial begin end if else case casex casez endcase for while repeat forever posedge negedge or function
 endfunction task endtask generate endgenerate genvar default real time tri supply0 supply1 wait unique disable
 event fork join'''.split())


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        # "@(*)" must not be read as an attribute start
        if s.startswith('(*)', i):
            out.append(('op', '('))
            out.append(('op', '*'))
            out.append(('op', ')'))
            i += 3
            continue
        m = TOK.match(s, i)
        if not m:
            raise VSyntaxError('lex error at %r' % s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        v = m.group()
        if k == 'id':
            if v[0] == '\\':
                v = v[1:]
            elif v in KW:
                k = 'kw'
        out.append((k, v))
    out.append(('eof', ''))
    return out


BIN = [
    ['||'], ['&&'], ['|'], ['^', '~^', '^~'], ['&'], ['==', '!=', '===', '!=='],
    ['<', '<=', '>', '>='], ['<<', '>>', '<<<', '>>>'], ['+', '-'], ['*', '/', '%'], ['**'],
]
PREC = {}
for _i, _l in enumerate(BIN):
    for _o in _l:
        PREC[_o] = _i + 1
UN = set(['+', '-', '!', '~', '&', '|', '^', '~&', '~|', '~^', '^~'])


def parse_number(v):
    """-> ('num', width or None, signed, value, xmask, zmask)"""
    v = v.replace('_', '')
    if "'" not in v:
        if '.' in v:
            return ('real', float(v))
        return ('num', None, True, int(v), 0, 0)
    m = re.match(r"(\d*)\s*'\s*([sS]?)([bodhBODH])\s*(.*)$", v, re.S)
    w, s, b, d = m.groups()
    base = {'b': 2, 'o': 8, 'd': 10, 'h': 16}[b.lower()]
    bits = {2: 1, 8: 3, 16: 4}.get(base)
    width = int(w) if w else None
    val = xm = zm = 0
    if base == 10:
        if d.lower() in ('x', 'z', '?'):
            wd = width or 32
            xm = (1 << wd) - 1 if d.lower() == 'x' else 0
            zm = (1 << wd) - 1 if d.lower() != 'x' else 0
        else:
            val = int(d)
    else:
        for ch in d:
            val <<= bits
            xm <<= bits
            zm <<= bits
            if ch in 'xX':
                xm |= (1 << bits) - 1
            elif ch in 'zZ?':
                zm |= (1 << bits) - 1
            else:
                x = int(ch, 16)
                if x >= base:
                    raise VSyntaxError('bad digit in %s' % v)
                val |= x
        if d[0] in 'xX' and width:
            n = len(d) * bits
            if n < width:
                xm |= ((1 << width) - 1) & ~((1 << n) - 1)
        if d[0] in 'zZ?' and width:
            n = len(d) * bits
            if n < width:
                zm |= ((1 << width) - 1) & ~((1 << n) - 1)
    return ('num', width, bool(s), val, xm, zm, True)


class Parser(object):
    def __init__(self, text):
        self.t = tokenize(text)
        self.i = 0

    # ------------------------------------------------------------- helpers
    def peek(self, k=0):
        return self.t[self.i + k][1] if self.t[self.i + k][0] != 'str' else None

    def kind(self, k=0):
        return self.t[self.i + k][0]

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def at(self, *vs):
        k, v = self.t[self.i]
        return k != 'str' and v in vs and k != 'eof'

    def acc(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.at(v):
            raise VSyntaxError('expected %r got %r near %s' % (
                v, self.t[self.i], ' '.join(x[1] for x in self.t[max(0, self.i - 12):self.i + 6])))
        self.i += 1

    def ident(self):
        k, v = self.next()
        if k != 'id':
            raise VSyntaxError('expected identifier got %r near %s' % (
                v, ' '.join(x[1] for x in self.t[max(0, self.i - 12):self.i + 6])))
        return v

    # ---------------------------------------------------------- expressions
    def expr(self):
        c = self.binary(1)
        if self.acc('?'):
            a = self.expr()
            self.exp(':')
            b = self.expr()
            return ('cond', c, a, b)
        return c

    def binary(self, p):
        if p > len(BIN):
            return self.unary()
        l = self.binary(p + 1)
        while self.kind() == 'op' and PREC.get(self.peek()) == p:
            o = self.next()[1]
            r = self.binary(p + 1)
            l = ('bin', o, l, r)
        return l

    def unary(self):
        if self.kind() == 'op' and self.peek() in UN:
            o = self.next()[1]
            return ('un', o, self.unary())
        return self.primary()

    def primary(self):
        k, v = self.t[self.i]
        if k == 'num':
            self.i += 1
            return parse_number(v)
        if k == 'str':
            self.i += 1
            return ('str', v[1:-1])
        if k == 'sys':
            self.i += 1
            args = []
            if self.acc('('):
                if not self.at(')'):
                    args.append(self.expr())
                    while self.acc(','):
                        args.append(self.expr())
                self.exp(')')
            return ('sys', v, args)
        if k == 'op' and v == '(':
            self.i += 1
            e = self.expr()
            self.exp(')')
            return e
        if k == 'op' and v == '{':
            self.i += 1
            e = self.expr()
            if self.at('{'):
                self.exp('{')
                items = [self.expr()]
                while self.acc(','):
                    items.append(self.expr())
                self.exp('}')
                self.exp('}')
                return ('repl', e, ('cat', items))
            items = [e]
            while self.acc(','):
                items.append(self.expr())
            self.exp('}')
            return ('cat', items)
        if k == 'id':
            return self.hier()
        raise VSyntaxError('unexpected %r near %s' % (
            v, ' '.join(x[1] for x in self.t[max(0, self.i - 12):self.i + 6])))

    def hier(self):
        name = self.ident()
        if self.at('('):
            self.i += 1
            args = []
            if not self.at(')'):
                args.append(self.expr())
                while self.acc(','):
                    args.append(self.expr())
            self.exp(')')
            return ('call', name, args)
        e = ('id', name)
        while True:
            if self.acc('['):
                a = self.expr()
                if self.acc(':'):
                    b = self.expr()
                    self.exp(']')
                    e = ('part', e, a, b)
                elif self.acc('+:'):
                    b = self.expr()
                    self.exp(']')
                    e = ('ipart', e, a, b, 1)
                elif self.acc('-:'):
                    b = self.expr()
                    self.exp(']')
                    e = ('ipart', e, a, b, -1)
                else:
                    self.exp(']')
                    e = ('idx', e, a)
            elif self.at('.'):
                self.i += 1
                e = ('dot', e, self.ident())
            else:
                return e

    def lvalue(self):
        if self.at('{'):
            self.i += 1
            items = [self.lvalue()]
            while self.acc(','):
                items.append(self.lvalue())
            self.exp('}')
            return ('cat', items)
        return self.hier()

    # ------------------------------------------------------------ statements
    def delay(self):
        if self.acc('#'):
            if self.acc('('):
                e = self.expr()
                self.exp(')')
                return e
            return self.primary()
        return None

    def stmt(self):
        k, v = self.t[self.i]
        if k == 'op':
            if v == ';':
                self.i += 1
                return ('null',)
            if v == '#':
                d = self.delay()
                if self.acc(';'):
                    return ('delay', d, ('null',))
                return ('delay', d, self.stmt())
            if v == '@':
                s = self.event()
                if self.acc(';'):
                    return ('evwait', s, ('null',))
                return ('evwait', s, self.stmt())
            if v == '->':
                self.i += 1
                n = self.hier()
                self.exp(';')
                return ('trigger', n)
        if k == 'sys':
            e = self.primary()
            self.exp(';')
            return ('systask', e[1], e[2])
        if k == 'kw':
            if v in ('begin', 'fork'):
                self.i += 1
                name = None
                if self.acc(':'):
                    name = self.ident()
                ss = []
                decls = []
                while not self.at('end', 'join'):
                    if self.at('reg', 'integer', 'wire', 'real'):
                        decls += self.decl()
                    else:
                        ss.append(self.stmt())
                self.i += 1
                return ('block', name, ss, decls, v)
            if v == 'if':
                self.i += 1
                self.exp('(')
                c = self.expr()
                self.exp(')')
                a = self.stmt()
                b = None
                if self.acc('else'):
                    b = self.stmt()
                return ('if', c, a, b)
            if v in ('case', 'casex', 'casez', 'unique'):
                self.i += 1
                if v == 'unique':
                    self.exp('case')
                    v = 'case'
                self.exp('(')
                c = self.expr()
                self.exp(')')
                items = []
                while not self.acc('endcase'):
                    if self.acc('default'):
                        self.acc(':')
                        items.append((None, self.stmt()))
                    else:
                        ls = [self.expr()]
                        while self.acc(','):
                            ls.append(self.expr())
                        self.exp(':')
                        items.append((ls, self.stmt()))
                return ('case', v, c, items)
            if v == 'for':
                self.i += 1
                self.exp('(')
                a = self.assign_ns()
                self.exp(';')
                c = self.expr()
                self.exp(';')
                b = self.assign_ns()
                self.exp(')')
                return ('for', a, c, b, self.stmt())
            if v == 'while':
                self.i += 1
                self.exp('(')
                c = self.expr()
                self.exp(')')
                return ('while', c, self.stmt())
            if v == 'repeat':
                self.i += 1
                self.exp('(')
                c = self.expr()
                self.exp(')')
                return ('repeat', c, self.stmt())
            if v == 'forever':
                self.i += 1
                return ('forever', self.stmt())
            if v == 'wait':
                self.i += 1
                self.exp('(')
                c = self.expr()
                self.exp(')')
                if self.acc(';'):
                    return ('wait', c, ('null',))
                return ('wait', c, self.stmt())
            if v == 'disable':
                self.i += 1
                n = self.ident()
                self.exp(';')
                return ('disable', n)
        # assignment or task call
        if k == 'id' and self.t[self.i + 1][1] in (';',):
            n = self.ident()
            self.exp(';')
            return ('taskcall', n, [])
        if k == 'id' and self.t[self.i + 1] == ('op', '('):
            e = self.hier()
            self.exp(';')
            return ('taskcall', e[1], e[2])
        s = self.assign_ns()
        self.exp(';')
        return s

    def assign_ns(self):
        l = self.lvalue()
        if self.acc('='):
            d = self.delay()
            return ('blk', l, self.expr(), d)
        self.exp('<=')
        d = self.delay()
        return ('nba', l, self.expr(), d)

    def event(self):
        self.exp('@')
        if self.acc('*'):
            return [('any', None)]
        if not self.at('('):
            return [('level', self.hier())]
        self.exp('(')
        if self.acc('*'):
            self.exp(')')
            return [('any', None)]
        out = []
        while True:
            if self.acc('posedge'):
                out.append(('posedge', self.expr()))
            elif self.acc('negedge'):
                out.append(('negedge', self.expr()))
            else:
                out.append(('level', self.expr()))
            if self.acc(',') or self.acc('or'):
                continue
            self.exp(')')
            return out

    # ----------------------------------------------------------------- items
    def rng(self):
        self.exp('[')
        a = self.expr()
        self.exp(':')
        b = self.expr()
        self.exp(']')
        return (a, b)

    def decl(self):
        """reg/wire/integer/... declarations -> list of ('decl', kind(s), signed, range, name, dims, init)"""
        kinds = []
        signed = False
        while self.at('input', 'output', 'inout', 'wire', 'reg', 'integer', 'signed', 'genvar', 'real', 'time',
                      'tri', 'supply0', 'supply1', 'event', 'parameter', 'localparam'):
            v = self.next()[1]
            if v == 'signed':
                signed = True
            else:
                kinds.append(v)
        r = None
        if self.at('signed'):
            self.i += 1
            signed = True
        if self.at('['):
            r = self.rng()
        out = []
        while True:
            name = self.ident()
            dims = []
            while self.at('['):
                dims.append(self.rng())
            init = None
            if self.acc('='):
                init = self.expr()
            out.append(('decl', tuple(kinds), signed, r, name, dims, init))
            if not self.acc(','):
                break
        self.exp(';')
        return out

    def ports(self):
        """after '(' """
        out = []
        if self.acc(')'):
            return out
        kinds, signed, r = (), False, None
        while True:
            if self.at('input', 'output', 'inout'):
                ks = []
                signed = False
                r = None
                while self.at('input', 'output', 'inout', 'wire', 'reg', 'signed', 'integer', 'tri'):
                    v = self.next()[1]
                    if v == 'signed':
                        signed = True
                    else:
                        ks.append(v)
                kinds = tuple(ks)
                if self.at('['):
                    r = self.rng()
            name = self.ident()
            dims = []
            while self.at('['):
                dims.append(self.rng())
            init = None
            if self.acc('='):
                init = self.expr()
            out.append(('decl', kinds, signed, r, name, dims, init))
            if self.acc(','):
                continue
            self.exp(')')
            return out

    def module(self):
        self.exp('module')
        name = self.ident()
        items = []
        if self.acc('#'):
            self.exp('(')
            if not self.acc(')'):
                sg, r = False, None
                while True:
                    if self.acc('parameter'):
                        sg, r = False, None
                        if self.acc('integer'):
                            sg = True
                        if self.acc('signed'):
                            sg = True
                        if self.at('['):
                            r = self.rng()
                    n = self.ident()
                    self.exp('=')
                    items.append(('decl', ('parameter',), sg, r, n, [], self.expr()))
                    if self.acc(','):
                        continue
                    self.exp(')')
                    break
        ports = []
        if self.acc('('):
            ps = self.ports()
            for p in ps:
                ports.append(p[4])
                if p[1]:
                    items.append(p)
        self.exp(';')
        items += self.items('endmodule')
        return ('module', name, ports, items)

    def items(self, *ends):
        out = []
        while not self.at(*ends):
            if self.kind() == 'eof':
                raise VSyntaxError('unexpected end of file')
            out.extend(self.item())
        self.i += 1
        return out

    def item(self):
        k, v = self.t[self.i]
        if k == 'op' and v == ';':
            self.i += 1
            return []
        if k == 'kw':
            if v in ('input', 'output', 'inout', 'wire', 'reg', 'integer', 'genvar', 'parameter', 'localparam',
                     'real', 'time', 'tri', 'supply0', 'supply1', 'event'):
                return self.decl()
            if v == 'assign':
                self.i += 1
                d = self.delay()
                out = []
                while True:
                    l = self.lvalue()
                    self.exp('=')
                    out.append(('assign', l, self.expr()))
                    if not self.acc(','):
                        break
                self.exp(';')
                return out
            if v == 'always':
                self.i += 1
                if self.at('@'):
                    return [('always', self.event(), self.stmt())]
                return [('always', None, self.stmt())]
            if v == 'initial':
                self.i += 1
                return [('initial', self.stmt())]
            if v == 'function':
                self.i += 1
                sg = self.acc('signed')
                integer = self.acc('integer')
                r = self.rng() if self.at('[') else None
                name = self.ident()
                decls = []
                if self.acc('('):
                    decls += self.ports()
                self.exp(';')
                while self.at('input', 'output', 'reg', 'integer', 'wire', 'real'):
                    decls += self.decl()
                body = []
                while not self.acc('endfunction'):
                    body.append(self.stmt())
                return [('function', name, sg or integer, ('int',) if integer else r, decls, body)]
            if v == 'task':
                self.i += 1
                name = self.ident()
                decls = []
                if self.acc('('):
                    decls += self.ports()
                self.exp(';')
                while self.at('input', 'output', 'inout', 'reg', 'integer', 'wire', 'real'):
                    decls += self.decl()
                body = []
                while not self.acc('endtask'):
                    body.append(self.stmt())
                return [('task', name, decls, body)]
            if v == 'generate':
                self.i += 1
                return self.items('endgenerate')
            if v == 'for':
                self.i += 1
                self.exp('(')
                a = self.assign_ns()
                self.exp(';')
                c = self.expr()
                self.exp(';')
                b = self.assign_ns()
                self.exp(')')
                n, body = self.genblock()
                return [('genfor', a, c, b, n, body)]
            if v == 'if':
                self.i += 1
                self.exp('(')
                c = self.expr()
                self.exp(')')
                n, body = self.genblock()
                n2, body2 = None, None
                if self.acc('else'):
                    if self.at('if'):
                        n2, body2 = None, self.item()
                    else:
                        n2, body2 = self.genblock()
                return [('genif', c, n, body, n2, body2)]
            if v == 'begin':
                n, body = self.genblock()
                return [('genblk', n, body)]
        if k == 'sys':
            e = self.primary()
            self.exp(';')
            return [('initial', ('systask', e[1], e[2]))]
        if k == 'id':
            mod = self.ident()
            params = []
            if self.acc('#'):
                self.exp('(')
                params = self.conns()
            insts = []
            while True:
                name = self.ident()
                r = None
                if self.at('['):
                    r = self.rng()
                self.exp('(')
                conns = self.conns()
                insts.append(('inst', mod, params, name, r, conns))
                if not self.acc(','):
                    break
            self.exp(';')
            return insts
        raise VSyntaxError('unexpected item %r near %s' % (
            v, ' '.join(x[1] for x in self.t[max(0, self.i - 12):self.i + 6])))

    def conns(self):
        out = []
        if self.acc(')'):
            return out
        while True:
            if self.acc('.'):
                n = self.ident()
                self.exp('(')
                e = None
                if not self.at(')'):
                    e = self.expr()
                self.exp(')')
                out.append((n, e))
            else:
                out.append((None, self.expr()))
            if self.acc(','):
                continue
            self.exp(')')
            return out

    def genblock(self):
        if self.acc('begin'):
            n = None
            if self.acc(':'):
                n = self.ident()
            return n, self.items('end')
        return None, self.item()

    def source(self):
        mods = []
        while self.kind() != 'eof':
            if self.acc(';'):
                continue
            mods.append(self.module())
        return mods


def parse(text):
    return Parser(text).source()

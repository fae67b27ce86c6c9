"""C06: resolving parameters and constants, folding constant expressions."""
from vlib.harness import Registry
from checks.equiv import equiv, api

R = Registry('C06', 'translation_validation', ['resolver/resolver.py', 'optimizer/optimizer.py', 'core/vtypes.py', 'core/module.py', 'verilog/to_verilog.py'],
             assumptions=['values that fit 32 bits, non-negative operands of shifts',
                          'the statements, operators and module forms of the scenarios'],
             explanation='The design is generated once as written and once after resolving (or with folded expressions); both texts run from the same symbolic inputs and all '
                         'outputs are compared in every cycle.')

HEAD = "m = Module('t')\nCLK = m.Input('CLK')\nRST = m.Input('RST')\n"


def res(src, const=None):
    def f():
        import veriloggen.resolver.resolver as resolver
        from collections import OrderedDict
        return resolver.resolve(api(src)(), OrderedDict(const) if const else None)
    return f


def add(name, src, const=None, cycles=3, **kw):
    R.add('res_' + name, equiv(res(HEAD + src, const), HEAD + src, cycles=cycles, rparams=dict(const) if const else None, refgen=True, **kw))


def seq(body):
    return "m.Always(Posedge(CLK))(\n    If(RST)(q(0)).Else(\n%s\n    )\n)\n" % body


P = "W = m.Parameter('W', %d)\nK = m.Parameter('K', %d)\n"
L = "D = m.Localparam('D', %s)\n"
IO = "a = m.Input('a', W)\nb = m.Input('b', W)\nq = m.OutputReg('q', %s)\n"

for w, k in ((4, 3), (8, 1), (5, 7), (1, 0)):
    s = P % (w, k)
    add('add_w%d' % w, s + IO % 'W' + seq('q(a + b + K)'))
    add('width_expr_w%d' % w, s + IO % 'W + 1' + seq('q(a + b)'))
    add('local_w%d' % w, s + L % 'W * 2 + K' + IO % 'D' + seq('q(Cat(a, b) + D)'))
    add('cond_w%d' % w, s + IO % 'W' + seq('If(K > 2)(q(a)).Elif(K == 1)(q(b)).Else(q(a ^ b))'))
    add('mux_w%d' % w, s + IO % 'W' + seq('q(Mux(K > 2, a, b) + Mux(a > K, K, W))'))
    add('nested_w%d' % w, s + IO % 'W + 2' + seq('q((a + (K + 1)) * (K + W - 1) - (b - (W - K * 2)))'))
OPS = ['+', '-', '*', '&', '|', '^', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '//', '%', '**']
for i, o in enumerate(OPS):
    v = (13, 3) if o != '**' else (3, 3)
    add('op%d' % i, P % v + "E = m.Localparam('E', K %s 2)\n" % o + "a = m.Input('a', 8)\nq = m.OutputReg('q', 16)\n" + seq('q((W %s K) + a + E)' % (o if o != '//' else '/')).replace('/', '/')
        if o != '//' else P % v + "a = m.Input('a', 8)\nq = m.OutputReg('q', 16)\n" + seq('q((W / K) + a)'))
    add('opvar%d' % i, P % (6, 3) + "a = m.Input('a', 8)\nq = m.OutputReg('q', 24)\n" + seq('q((a %s K) + 1)' % ('/' if o == '//' else o))) if o != '**' else None
    add('oprev%d' % i, P % (6, 3) + "a = m.Input('a', 3)\nq = m.OutputReg('q', 24)\n" + seq('q((W %s a) + 1)' % o)) if o not in ('**', '//', '%') else None
for i, u in enumerate(('-K', '~K', 'Not(K)', 'Uand(K)', 'Uor(K)', 'Uxor(K)', 'Ulnot(K)')):
    add('un%d' % i, P % (6, 3) + "a = m.Input('a', 8)\nq = m.OutputReg('q', 16)\n" + seq('q(a + (%s))' % u))
for i, u in enumerate(('Land(K, a)', 'Lor(a, K)', 'Ands(K > 2, a > W, b)', 'Ors(K > 3, a > W, b)', 'AndList(K > 2, a[0])', 'Mux(K, a, b)', 'Cond(a > K, K + 1, W)', 'Sra(a, K)', 'a[K]', 'a[1:K]', 'Cat(a, b)',
                       'Repeat(a[0], K)', 'a[K - 1]', 'Slice(a, W, K)', 'Cat(a[W], b[K])', 'Repeat(b, K + 1)', 'Cat(a, Repeat(b, K))')):
    add('form%d' % i, P % (6, 3) + "a = m.Input('a', 8)\nb = m.Input('b', 2)\nq = m.OutputReg('q', 32)\n" + seq('q(%s)' % u))
BASE = P % (6, 3) + "a = m.Input('a', 8)\nb = m.Input('b', 2)\nq = m.OutputReg('q', 16)\n"
ST = {
    'case': 'Case(b)(When(0)(q(a)), When(K)(q(W)), When()(q(q + K)))',
    'casep': 'Case(K)(When(b)(q(a)), When(W)(q(1)), When()(q(q + 3)))',
    'casex': 'Casex(b)(When(K - 1)(q(a)), When()(q(q + K)))',
    'casez': 'Casez(b)(When(K - 1)(q(a + K)), When()(q(q + 1)))',
    'when2': 'Case(b)(When(0, K)(q(a)), When(K - 2)(q(a + K)), When()(q(7)))',
    'slice_dst': 'q[0:K](a), q[W](b[0]), q[W + 1:K * 4](a)',
    'cat_dst': 'Cat(q[W], q[K])(b)',
    'ifdeep': 'If(b == K)(If(a > W)(q(a)).Else(q(W))).Elif(b > K - 2)(q(q - K)), If(K < W)(q[0](b[1]))',
    'for1': 'For(i(0), i < W, i.inc())(q[i](a[i] ^ b[0]))',
    'for2': 'For(i(K), i < W + 2, i(i + 2))(q[i](a[W - K]), q[i + 1](b[1]))',
    'for3': 'q(a), For(i(1), i <= K, i(i + 1))(If(b == i)(q(a + i * W)))',
}
for n, s in ST.items():
    add('st_' + n, BASE + ("i = m.Integer('i')\n" if 'for' in n else '') + seq(s))
add('assign', P % (6, 3) + "a = m.Input('a', W)\ny = m.Output('y', W + K)\nm.Assign(y((a << K) + W))\n")
add('assign_reg', P % (6, 3) + "a = m.Input('a', W)\ny = m.Output('y', W)\nw = m.Wire('w', W * K)\nw.assign(Repeat(a, K))\ny.assign(w[W:W * 2])\n")
add('comb', P % (6, 3) + "a = m.Input('a', W)\ny = m.OutputReg('y', W)\nm.Always()(y(a + K, blk=True), If(a > W)(y(K, blk=True)))\n")
add('ram', "A = m.Parameter('A', 2)\nN = m.Localparam('N', 2 ** A)\na = m.Input('a', A)\nd = m.Input('d', 4)\nw = m.Input('w')\ny = m.Output('y', 4)\nmem = m.Reg('mem', 4, N)\n"
           "m.Always(Posedge(CLK))(If(w)(mem[a](d)))\ny.assign(mem[a])\n", initzero=True)
add('ram_dims', "A = m.Parameter('A', 2)\na = m.Input('a', A)\nd = m.Input('d', 4)\nw = m.Input('w')\ny = m.Output('y', 4)\nmem = m.Reg('mem', 4, dims=(2 ** A,))\n"
                "m.Always(Posedge(CLK))(If(w)(mem[a](d)))\ny.assign(mem[a] + mem[A])\n", initzero=True)
add('initval', P % (6, 3) + "a = m.Input('a', 4)\nq = m.OutputReg('q', 8, initval=K + 2)\nm.Always(Posedge(CLK))(If(RST)(m.make_reset()).Else(q(q + a + W)))\n")
add('initial', P % (6, 3) + "a = m.Input('a', 4)\nq = m.OutputReg('q', 8)\nm.Initial(q(K * W))\nm.Always(Posedge(CLK))(If(a > K)(q(q + a)))\n", warm=0)
add('seq', P % (6, 3) + "a = m.Input('a', 4)\nq = m.OutputReg('q', W + 2, initval=0)\ns = Seq(m, 's', CLK, RST)\ns.If(a > K)(q(q + W))\ns.Then().Delay(2)(q(K))\ns.If(q == W)(q(a))\n", cycles=5)
add('fsm', P % (6, 2) + "a = m.Input('a', 4)\nq = m.OutputReg('q', W, initval=0)\nf = FSM(m, 'f', CLK, RST)\nf(q(K))\nf.If(a > K).goto_next()\nf(q.add(W))\nf.If(a == W).goto_init()\nf.goto(0)\n", cycles=6)
SUB = ("sub = Module('sub')\nsw = sub.Parameter('sw', 2)\nsk = sub.Parameter('sk', 1)\nsa = sub.Input('x', sw)\nsy = sub.Output('y', sw)\nsl = sub.Localparam('sl', sw + sk)\nsy.assign(sa * sl + sk)\n")
add('inst', SUB + P % (6, 3) + "a = m.Input('a', W)\ny = m.Output('y', W)\nm.Instance(sub, 'u', params=[('sw', W), ('sk', K)], ports=[('x', a), ('y', y)])\n")
add('inst_two', SUB + P % (6, 3) + "a = m.Input('a', W)\nb = m.Input('b', 2)\ny = m.Output('y', W)\nz = m.Output('z', 2)\nm.Instance(sub, 'u', params=[('sw', W), ('sk', K - 1)], ports=[('x', a), ('y', y)])\n"
                "m.Instance(sub, 'v', ports=[('x', b), ('y', z)])\n")
add('inst_expr', SUB + P % (6, 3) + "a = m.Input('a', W)\ny = m.Output('y', W * 2)\nm.Instance(sub, 'u', params=[('sw', W * 2)], ports=[('x', Cat(a, a) + K), ('y', y)])\n")
add('inst_deep', SUB + "mid = Module('mid')\nmw = mid.Parameter('mw', 3)\nma = mid.Input('x', mw)\nmy = mid.Output('y', mw)\nmid.Instance(sub, 'i', params=[('sw', mw), ('sk', mw + 1)], ports=[('x', ma + mw), ('y', my)])\n"
                 + P % (6, 3) + "a = m.Input('a', W)\ny = m.Output('y', W)\nm.Instance(mid, 'u', params=[('mw', W)], ports=[('x', a), ('y', y)])\n")
add('const_dict', P % (6, 3) + IO % 'W + 1' + L % 'K * 3' + seq('q(a + b + K + D)'), const={'K': 5}, check_ports=False)
add('const_dict_w', P % (6, 3) + IO % 'W' + L % 'W * 3' + seq('q((a + b * K) ^ D)'), const={'W': 4})
add('unused_chain', "A = m.Parameter('A', 4)\nC = m.Localparam('C', A + 1)\nB = m.Localparam('B', C * 2)\na = m.Input('a', A)\nq = m.OutputReg('q', B)\n" + seq('q(a + B * C)'))
add('systask', P % (6, 3) + IO % 'W' + seq("q(a - K), Systask('display', '%d', K + a)"))
add('signed', "K = m.Parameter('K', -3)\na = m.Input('a', 8, signed=True)\nq = m.OutputReg('q', 8, signed=True)\ny = m.Output('y')\ny.assign(a < K)\n" + seq('If(a > K)(q(a * K)).Else(q(K - a))'))
add('negfold', "K = m.Parameter('K', -7)\nJ = m.Parameter('J', 2)\na = m.Input('a', 8, signed=True)\nq = m.OutputReg('q', 8, signed=True)\ny = m.Output('y')\ny.assign((K + J) < a)\n" + seq('q(a + (K - J) * J + Mux(K < J, 1, 2))'))


SZ = P % (6, 3) + "a = m.Input('a', 8)\nb = m.Input('b', 2)\nsa = m.Input('sa', 8, signed=True)\nq = m.OutputReg('q', 16)\n"
for i, e in enumerate(('Cat(a, Int(1, width=2))', 'Cat(Int(5, width=4), a, Int(0, width=3))', 'Mux(sa < Int(100, width=8), a, b)', 'a + Int("8\'hff")', 'Repeat(Int(2, width=2), K) + a', 'Cat(Int(1, width=2), Int(2, width=3)) + a',
                       '~Int(5, width=4) + a', 'Cat(~Int(5, width=4), a)', 'Cat(Int(3, width=4) + Int(14, width=4), a)', 'Cat(Repeat(Int(1, width=1), K), b)', 'Cat(Int(1, width=1), Repeat(b, K))', 'Mux(a[0], Int(3, width=2), Int(9, width=4))',
                       'Int(200, width=8) + sa', 'Mux(sa > Int(-3, width=8, signed=True), 1, 2) if False else Mux(sa > -3, 1, 2)', 'Cat(a[1], Mux(K > 2, Int(1, width=2), Int(2, width=2)))')):
    add('sized%d' % i, SZ + seq('q(%s)' % e))
add('sized_case', BASE + seq('Case(b)(When(Int(0, width=2))(q(a)), When(Int(3, width=2))(q(Int(9, width=8))), When()(q(Cat(Int(1, width=1), a))))'))
add('sized_param', "N = m.Parameter('N', 9, width=4)\nM = m.Localparam('M', N + 8, width=4)\na = m.Input('a', 8)\nq = m.OutputReg('q', 16)\n" + seq('q(a + N + M)'))
add('sized_param_cat', "N = m.Parameter('N', 9, width=4)\na = m.Input('a', 8)\nq = m.OutputReg('q', 16)\n" + seq('q(Cat(a, N))'))
add('param_cat', "N = m.Parameter('N', 9)\na = m.Input('a', 8)\nq = m.OutputReg('q', 48)\n" + seq('q(Cat(a, N))'))
add('sized_param_cmp', "N = m.Parameter('N', 9, width=4)\nsa = m.Input('sa', 8, signed=True)\nq = m.OutputReg('q', 16)\n" + seq('q(Mux(sa > N, 1, 2))'))

for i, e in enumerate(('Mux(sa > N + 1, 1, 2)', 'Cat(a, -N)', 'a + (N + 8)', 'Mux(sa < -N, 1, 2)', 'Cat(~N, a)', 'N + 8 + sa')):
    add(('kf_sized_param_op%d' if 'sa' in e else 'sized_param_op%d') % i, "N = m.Parameter('N', 9, width=4)\na = m.Input('a', 8)\nsa = m.Input('sa', 8, signed=True)\nq = m.OutputReg('q', 20)\n" + seq('q(%s)' % e))


# ---- expressions folded one at a time -------------------------------------------------------------------------------------
def opt(name, e, how='try_optimize', **kw):
    s = "a = m.Input('a', 8)\nb = m.Input('b', 8)\nw = m.Input('w', 32)\ny = m.Output('y', 32)\n"
    f = lambda fm: HEAD + s + "from veriloggen.optimizer import try_optimize, optimize\nm.Assign(y(%s))\n" % (fm % e)
    R.add('opt_' + name, equiv(f(how + '(%s)'), f('(%s)'), cycles=1, refgen=True, warm=0, **kw))


for i, e in enumerate(('a + 1 + 2', '(a + 3) - 3', 'a + (5 - 5)', 'a * (3 + 1)', '(a + b) * 2 + 1', 'w * (32 // 8)', 'w + 4 * 2', '(w + 4) + 4', '(w - 4) + 4', 'a * 1', 'a * 0 + b', 'a + 0', '0 + a', '1 * w', '(w << 2) << 1', '(w << 2) >> 2',
                      'Mux(a > 3, 1 + 2, b)', 'Mux(a > 3, a, b) + (1 + 2)', 'Land(a, b) + 1', 'a & (3 | 4)', '(a | 1) & 1', 'w - (b + 3)', '(w - b) - 3', '(3 + b) - (2 + b)', 'a == (1 + 2)', '(1 + 2) != b', 'Not(a) + (1 + 1)',
                      'Int(3) + Int(4) + a', 'Int(1) << (a + 0)', 'w + (Int(7) >> 1)', '(Int(2) ** 3) + a', '(a >> 1) + (b >> 1)', 'w / 4', 'w % 8', 'Int(7) / 2 + a', 'Int(7) % 4 + a', 'w < (3 + 4)', 'w >= (b + 3)', 'Uminus(a) + 8',
                      'Lor(a > (1 + 1), b < (4 - 2))', 'a ^ (6 ^ 3)', '(a + 1) + (b + 2)', '(a - 1) - (b - 1)', '(w * 2) * 4', '((w + 1) * 4) + 8', 'Mux(w == 3, w + 1 + 1, Mux(a, 2 + 3, b))', 'Int(0) - a', '5 - (a + 2)')):
    opt('%d' % i, e)
for i, e in enumerate(('Mux(a > 3, 1 + 2, b)', 'Mux(a > 3, a, b) + (1 + 2)', 'Mux(w == 3, w + 1 + 1, Mux(a, 2 + 3, b))', 'Mux(a > 3, a + 1, b) + Mux(b > 1, 3, a)', 'Not(Mux(a > 3, a, b))',
                       '2 - Mux(a > 3, 1, b)', 'a + 1 + 2', 'Mux(Int(1), a, b)', 'Mux(Int(2) > 3, a, b) + 1', '-Mux(a > b, a, b)', 'Mux(a > b, Mux(a > 3, b, a), 7) - Mux(b > 2, 1, w)')):
    opt('cond%d' % i, e)

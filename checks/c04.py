"""C04: hierarchy, parameters, ports and generate blocks compose correctly."""
from vlib.harness import Registry
from checks.equiv import equiv

R = Registry('C04', 'translation_validation', ['core/module.py', 'core/submodule.py', 'core/rename_visitor.py', 'core/collect_visitor.py', 'core/vtypes.py', 'verilog/to_verilog.py'],
             assumptions=['two-state logic; both designs start from two cycles of reset and then see the same arbitrary inputs (resets included) for 4 cycles',
                          'the reference of every design is written flat, with all parameter values substituted'],
             explanation='Hierarchical designs are built through the API, their emitted text is elaborated (instances, parameter overrides, generate blocks) and executed symbolically next to a flat reference '
                         'with the same ports; outputs are compared in every cycle for all inputs, and the port lists must agree.')

SUB = '''
def mksub(name='sub', W=8, I=3, k=0):
    s = Module(name)
    W = s.Parameter('W', W)
    I = s.Parameter('I', I)
    H = s.Localparam('H', W + 1)
    clk = s.Input('CLK')
    rst = s.Input('RST')
    a = s.Input('a', W)
    b = s.Input('b', W, signed=True)
    en = s.Input('en')
    q = s.OutputReg('q', W, initval=0)
    y = s.Output('y', H, signed=True)
    y.assign(a + b + k)
    s.Always(Posedge(clk))(If(rst)(q(I)).Elif(en)(q(q + a + k)))
    return s
'''


def inst(p, W, I, a, b, en, k=0):
    """the same logic flat: registers and wires with prefix p"""
    return '''reg [%d:0] %sq; wire [%d:0] %sa, %sb; wire %sen; assign %sa = %s; assign %sb = %s; assign %sen = %s;
wire signed [%d:0] %sy; assign %sy = %sa + %sb + %d;
always @(posedge CLK) if (RST) %sq <= %d; else if (%sen) %sq <= %sq + %sa + %d;
''' % (W - 1, p, W - 1, p, p, p, p, a, p, b, p, en, W, p, p, p, p, k, p, I, p, p, p, p, k)


def top(ports, body):
    return 'module top(input CLK, input RST, %s);\n%s\nendmodule\n' % (', '.join(ports), body)


IO = ['input [7:0] a', 'input [7:0] b', 'input en', 'output [7:0] q', 'output [8:0] y']
HEAD = '''
m = Module('top')
CLK = m.Input('CLK')
RST = m.Input('RST')
'''
PORTS = '''a = m.Input('a', 8)
b = m.Input('b', 8)
en = m.Input('en')
q = m.Output('q', 8)
y = m.Output('y', 9)
'''


def add(name, src, ref, **kw):
    tier = kw.pop('tier', 'quick')
    kw.setdefault('top', 'top')
    R.add(name, equiv(SUB + HEAD + src, ref, **kw), tier=tier, bounds='all inputs of 4 cycles')


one = lambda W=8, I=3, k=0: top(IO, inst('u', W, I, 'a', 'b', 'en', k) + 'assign q = uq; assign y = uy;')
D8 = one()
# ways of naming ports
add('dict', PORTS + "m.Instance(mksub(), 'u', ports=dict(y=y, q=q, en=en, b=b, a=a, RST=RST, CLK=CLK))\n", D8)
add('odict', PORTS + "m.Instance(mksub(), 'u', ports=OrderedDict([('y', y), ('CLK', CLK), ('q', q), ('en', en), ('a', a), ('RST', RST), ('b', b)]))\n", D8)
add('list', PORTS + "m.Instance(mksub(), 'u', ports=[('b', b), ('a', a), ('CLK', CLK), ('RST', RST), ('en', en), ('q', q), ('y', y)])\n", D8)
add('position', PORTS + "m.Instance(mksub(), 'u', ports=(CLK, RST, a, b, en, q, y))\n", D8)
add('position_swap', PORTS + "m.Instance(mksub(), 'u', ports=[CLK, RST, b, a, en, q, y])\n", top(IO, inst('u', 8, 3, 'b', 'a', 'en') + 'assign q = uq; assign y = uy;'))
add('position_none', PORTS + "m.Instance(mksub(), 'u', ports=[CLK, RST, a, b, en, None, y])\nq.assign(a)\n", top(IO, inst('u', 8, 3, 'a', 'b', 'en') + 'assign q = a; assign y = uy;'))
add('position_short', PORTS + "m.Instance(mksub(), 'u', ports=[CLK, RST, a, b, en, q])\ny.assign(a)\n", top(IO, inst('u', 8, 3, 'a', 'b', 'en') + 'assign q = uq; assign y = a;'))
add('same_name', PORTS + "m.Instance(mksub(), 'u', ports=connect_same_name(CLK, RST, [a, b], (y, en), q))\n", D8)
add('connect_ports', PORTS + "s = mksub()\nm.Instance(s, 'u', ports=m.connect_ports(s))\n", D8)
add('connect_params', "W = m.Parameter('W', 8)\nI = m.Localparam('I', 9)\n" + PORTS + "s = mksub('sub', 4, 1)\nm.Instance(s, 'u', m.connect_params(s), m.connect_ports(s))\n", one(8, 9).replace('module top(', 'module top #(parameter W = 8)('))
add('connect_prefix', "CLK_ = 0\n" + "for n, w in (('a', 8), ('b', 8), ('en', 1)): m.Input('i_%s_x' % n, w)\nq = m.Output('i_q_x', 8)\ny = m.Output('i_y_x', 9)\ns = mksub()\nd = m.connect_ports(s, prefix='i_', postfix='_x')\nd.update(m.connect_ports(s, include=('CLK', 'RST')))\nm.Instance(s, 'u', ports=d)\n",
    top(['input [7:0] i_a_x', 'input [7:0] i_b_x', 'input i_en_x', 'output [7:0] i_q_x', 'output [8:0] i_y_x'], inst('u', 8, 3, 'i_a_x', 'i_b_x', 'i_en_x') + 'assign i_q_x = uq; assign i_y_x = uy;'))
add('connect_exclude', PORTS + "s = mksub()\nd = m.connect_ports(s, exclude=('b', 'y.*'))\nd['b'] = a\nd['y'] = y\nm.Instance(s, 'u', ports=d)\n", top(IO, inst('u', 8, 3, 'a', 'a', 'en') + 'assign q = uq; assign y = uy;'))
add('connect_regex', "a = m.Input('a', 8)\nb = m.Input('b', 8)\nen = m.Input('en')\nq = m.Output('q', 8)\ny = m.Output('y', 9)\ns = mksub()\nd = m.connect_ports(s, include='[ab]$')\nd.update(m.connect_ports(s, include=('e', 'C', 'R', 'q', 'y')))\nm.Instance(s, 'u', ports=d)\n", D8)

# parameters
add('par_named', PORTS + "m.Instance(mksub('sub', 4, 1), 'u', [('I', 7), ('W', 8)], (CLK, RST, a, b, en, q, y))\n", one(8, 7))
add('par_dict', PORTS + "m.Instance(mksub('sub', 4, 1), 'u', dict(W=8), (CLK, RST, a, b, en, q, y))\n", one(8, 1))
add('par_pos', PORTS + "m.Instance(mksub('sub', 4, 1), 'u', (8, 200), (CLK, RST, a, b, en, q, y))\n", one(8, 200))
add('par_pos1', PORTS + "m.Instance(mksub('sub', 4, 1), 'u', (8,), (CLK, RST, a, b, en, q, y))\n", one(8, 1))
add('par_expr', "P = m.Parameter('P', 3)\nL = m.Localparam('L', P * 2 + 2)\n" + PORTS + "m.Instance(mksub('sub', 4, 1), 'u', (L, P + 4), (CLK, RST, a, b, en, q, y))\n", one(8, 7).replace('module top(', 'module top #(parameter P = 3)('))
add('par_top', "P = m.Parameter('P', 3)\nL = m.Localparam('L', P * 2)\n" + PORTS + "m.Instance(mksub('sub', 4, 1), 'u', [('W', 8), ('I', L + P)], (CLK, RST, a, b, en, q, y))\n", one(8, 15).replace('module top(', 'module top #(parameter P = 3)('), params={'P': 5})
add('par_width', "P = m.Parameter('P', 5)\na = m.Input('a', P)\ny = m.Output('y', P + 2)\nr = m.OutputReg('r', P)\ny.assign(a + P)\nm.Always(Posedge(CLK))(If(RST)(r(P)).Else(r(r + a)))\n",
    'module top #(parameter P = 5)(input CLK, input RST, input [6:0] a, output [8:0] y, output reg [6:0] r);\nassign y = a + 7;\nalways @(posedge CLK) if (RST) r <= 7; else r <= r + a;\nendmodule', params={'P': 7})
add('par_sized', "P = m.Parameter('P', -3, 4, signed=True)\nQ = m.Parameter('Q', 10, 4)\nL = m.Localparam('L', -3, 4, signed=True)\na = m.Input('a', 4, signed=True)\ny = m.Output('y', 8)\nz = m.Output('z', 8)\nw = m.Output('w', 8)\ny.assign(Mux(a < P, P + a, a))\nz.assign(Mux(a < Q, Q + a, a))\nw.assign(Mux(a < L, L + a, a))\n",
    'module top(input CLK, input RST, input signed [3:0] a, output [7:0] y, output [7:0] z, output [7:0] w);\nassign y = (a < -4\'sd3) ? -4\'sd3 + a : a; assign z = (a < 4\'d10) ? 4\'d10 + a : a; assign w = (a < -4\'sd3) ? -4\'sd3 + a : a;\nendmodule')

# expressions on ports
add('port_expr', PORTS + "m.Instance(mksub(), 'u', ports=(CLK, RST, a ^ b, Cat(b[0:4], b[4:8]), Not(en), q, y))\n", top(IO, inst('u', 8, 3, 'a ^ b', '{b[3:0], b[7:4]}', '!en') + 'assign q = uq; assign y = uy;'))
add('port_const', PORTS + "m.Instance(mksub(), 'u', ports=(CLK, RST, Int(5, width=8), -1, 1, q, y))\n", top(IO, inst('u', 8, 3, '5', '8\'hff', '1') + 'assign q = uq; assign y = uy;'))
add('port_slice', PORTS + "w = m.Wire('w', 17)\nm.Instance(mksub(), 'u', ports=(CLK, RST, a, b, en, w[0:8], w[8:17]))\nq.assign(w[4:12])\ny.assign(w[8:17] ^ w[0:8])\n", top(IO, inst('u', 8, 3, 'a', 'b', 'en') + 'wire [16:0] w; assign w[7:0] = uq; assign w[16:8] = uy; assign q = w[11:4]; assign y = w[16:8] ^ w[7:0];'))
add('port_cat', PORTS + "h = m.Wire('h', 4)\nl = m.Wire('l', 4)\nm.Instance(mksub(), 'u', ports=(CLK, RST, a, b, en, Cat(h, l), y))\nq.assign(Cat(l, h))\n", top(IO, inst('u', 8, 3, 'a', 'b', 'en') + 'assign q = {uq[3:0], uq[7:4]}; assign y = uy;'))
add('port_narrow', PORTS + "m.Instance(mksub('sub', 4, 1), 'u', ports=(CLK, RST, a, b, en, q, y))\n", top(IO, inst('u', 4, 1, 'a', 'b', 'en') + 'assign q = uq; assign y = {{4{uy[4]}}, uy};'))

# several instances and levels
TWO = ['input [7:0] a', 'input [7:0] b', 'input en', 'output [7:0] q', 'output [8:0] y', 'output [3:0] q1', 'output [4:0] y1']
P2 = PORTS + "q1 = m.Output('q1', 4)\ny1 = m.Output('y1', 5)\n"
add('two', P2 + "s = mksub()\nm.Instance(s, 'u', ports=(CLK, RST, a, b, en, q, y))\nm.Instance(s, 'v', (4, 9), ports=(CLK, RST, q[0:4], y[0:4], a[0], q1, y1))\n",
    top(TWO, inst('u', 8, 3, 'a', 'b', 'en') + inst('v', 4, 9, 'uq[3:0]', 'uy[3:0]', 'a[0]') + 'assign q = uq; assign y = uy; assign q1 = vq; assign y1 = vy;'))
add('same_module_name', P2 + "m.Instance(mksub('sub', 8, 3), 'u', ports=(CLK, RST, a, b, en, q, y))\nm.Instance(mksub('sub', 4, 5, 1), 'v', ports=(CLK, RST, a[0:4], b[0:4], en, q1, y1))\n",
    top(TWO, inst('u', 8, 3, 'a', 'b', 'en') + inst('v', 4, 5, 'a[3:0]', 'b[3:0]', 'en', 1) + 'assign q = uq; assign y = uy; assign q1 = vq; assign y1 = vy;'))
add('same_module_name3', PORTS + "w = [m.Wire('w%d' % i, 9) for i in range(3)]\nz = [m.Wire('z%d' % i, 8) for i in range(3)]\nfor i in range(3): m.Instance(mksub('sub', 8, 3 + i, i), 'u%d' % i, ports=(CLK, RST, a, b, en, z[i], w[i]))\nq.assign(z[0] ^ z[1] ^ z[2])\ny.assign(w[0] ^ w[1] ^ w[2])\n",
    top(IO, ''.join(inst('u%d' % i, 8, 3 + i, 'a', 'b', 'en', i) for i in range(3)) + 'assign q = u0q ^ u1q ^ u2q; assign y = u0y ^ u1y ^ u2y;'))
MID = '''
def mkmid(name='mid', k=0, W=8, sub=None):
    s = Module(name)
    W = s.Parameter('W', W)
    clk = s.Input('CLK')
    rst = s.Input('RST')
    a = s.Input('a', W)
    b = s.Input('b', W)
    en = s.Input('en')
    q = s.Output('q', W)
    y = s.Output('y', W + 1)
    s.Instance(sub or mksub('sub', 4, 5, k), 'x', dict(W=W, I=W + 1), (clk, rst, a, b, en, q, y))
    return s
'''
add('nested', MID + PORTS + "m.Instance(mkmid('mid', 0, 4), 'u', dict(W=8), (CLK, RST, a, b, en, q, y))\n", one(8, 9))
add('nested_two', MID + P2 + "s = mkmid('mid', 0, 4)\nm.Instance(s, 'u', dict(W=8), (CLK, RST, a, b, en, q, y))\nm.Instance(s, 'v', None, (CLK, RST, a[0:4], b[0:4], en, q1, y1))\n",
    top(TWO, inst('u', 8, 9, 'a', 'b', 'en') + inst('v', 4, 5, 'a[3:0]', 'b[3:0]', 'en') + 'assign q = uq; assign y = uy; assign q1 = vq; assign y1 = vy;'))
add('shared_sub', MID + P2 + "s = mksub('sub', 4, 5)\nm.Instance(mkmid('mid', sub=s), 'u', dict(W=8), (CLK, RST, a, b, en, q, y))\nm.Instance(s, 'v', None, (CLK, RST, a[0:4], b[0:4], en, q1, y1))\n",
    top(TWO, inst('u', 8, 9, 'a', 'b', 'en') + inst('v', 4, 5, 'a[3:0]', 'b[3:0]', 'en') + 'assign q = uq; assign y = uy; assign q1 = vq; assign y1 = vy;'))
NESTED_NAMES = top(TWO, inst('u', 8, 9, 'a', 'b', 'en') + inst('v', 4, 5, 'a[3:0]', 'b[3:0]', 'en', 1) + 'assign q = uq; assign y = uy; assign q1 = vq; assign y1 = vy;')
add('nested_names', MID + P2 + "m.Instance(mkmid('mid', 0), 'u', dict(W=8), (CLK, RST, a, b, en, q, y))\nm.Instance(mksub('sub', 4, 5, 1), 'v', None, (CLK, RST, a[0:4], b[0:4], en, q1, y1))\n", NESTED_NAMES)
add('nested_names2', MID + P2 + "m.Instance(mksub('sub', 4, 5, 1), 'v', None, (CLK, RST, a[0:4], b[0:4], en, q1, y1))\nm.Instance(mkmid('mid', 0), 'u', dict(W=8), (CLK, RST, a, b, en, q, y))\n", NESTED_NAMES)
add('nested_names3', MID + P2 + "m.Instance(mkmid('mid', 0), 'u', dict(W=8), (CLK, RST, a, b, en, q, y))\nm.Instance(mkmid('mid2', 1), 'v', dict(W=4), (CLK, RST, a[0:4], b[0:4], en, q1, y1))\n", NESTED_NAMES)
add('stub', PORTS + "s = StubModule('ext', 'module ext(input [7:0] i, output [7:0] o);\\nassign o = i + 1;\\nendmodule\\n')\nm.Instance(s, 'u', ports=[('i', a), ('o', q)])\ny.assign(b)\n", top(IO, 'assign q = a + 8\'d1; assign y = b;'))
add('stub_pos', PORTS + "s = StubModule('ext', 'module ext #(parameter K = 1)(input [7:0] i, output [7:0] o);\\nassign o = i + K;\\nendmodule\\n')\nm.Instance(s, 'u', [4], [a, q])\ny.assign(b)\n", top(IO, 'assign q = a + 8\'d4; assign y = b;'))

# copies of parameters, ports and signals
SRC = """
s = Module('src')
P = s.Parameter('P', 6)
Q = s.Parameter('Q', P + 2, 8)
L = s.Localparam('L', P - 1)
ci = s.Input('ci', Q)
cs = s.Input('cs', P, signed=True)
co = s.Output('co', Q)
cr = s.OutputReg('cr', L)
v = s.Reg('v', Q, initval=3)
w = s.Wire('w', P, signed=True)
mem = s.Reg('mem', P, dims=4)
"""
CIO = ['input [7:0] ci', 'input signed [5:0] cs', 'output [7:0] co', 'output [4:0] cr']
add('copy_all', SRC + "m.copy_params(s)\nm.copy_localparams(s)\nm.copy_ports(s)\nm.copy_vars(s, include=('v', 'w', 'mem'))\nm['w'].assign(m['cs'] + 1)\nm['co'].assign(m['ci'] + m['w'] + m['P'] + m['v'])\nm['cr'].assign(m['w'] >> 1) if False else m.Assign(m['cr'](m['w'] + m['Q']))\nm.Always(Posedge(CLK))(If(RST)(m['v'](0)).Else(m['v'](m['v'] + m['ci'])))\n",
    'module top #(parameter P = 6, parameter [7:0] Q = P + 2)(input CLK, input RST, ' + ', '.join(CIO) + ');\nwire signed [5:0] w; reg [7:0] v; assign w = cs + 1; assign co = ci + w + 6 + v; assign cr = w + 8\'d8; always @(posedge CLK) if (RST) v <= 0; else v <= v + ci;\nendmodule')
add('copy_prefix', SRC + "m.copy_params(s, 'a_')\nm.copy_localparams(s, 'a_')\nm.copy_ports(s, 'a_')\nm.copy_vars(s, 'a_', include=('w',))\nm['a_w'].assign(m['a_cs'] + 1)\nm['a_co'].assign(m['a_ci'] + m['a_w'] + m['a_P'])\nm['a_cr'].assign(m['a_w'] + m['a_Q'] + m['a_L'])\n",
    'module top #(parameter a_P = 7, parameter [7:0] a_Q = a_P + 2)(input CLK, input RST, input [8:0] a_ci, input signed [6:0] a_cs, output [8:0] a_co, output [5:0] a_cr);\nwire signed [6:0] w; assign w = a_cs + 1; assign a_co = a_ci + w + 7; assign a_cr = w + 8\'d9 + 6;\nendmodule', params={'a_P': 7}, rparams={'a_P': 7})
add('copy_postfix', SRC + "m.copy_params(s, postfix='_z')\nm.copy_localparams(s, postfix='_z')\nm.copy_ports(s, postfix='_z', exclude=('cr', 'cs'))\nm['co_z'].assign(m['ci_z'] + m['L_z'])\n",
    'module top #(parameter P_z = 6, parameter [7:0] Q_z = 8)(input CLK, input RST, input [7:0] ci_z, output [7:0] co_z);\nassign co_z = ci_z + 5;\nendmodule')
add('copy_rename_exclude', SRC + "P = m.Parameter('P', 4)\nm.copy_params(s, 'a_', include='Q', rename_exclude='P')\nm.copy_ports(s, 'a_', include='c[io]')\nm['a_co'].assign(m['a_ci'] + m['a_Q'])\n",
    'module top #(parameter P = 4, parameter [7:0] a_Q = P + 2)(input CLK, input RST, input [a_Q-1:0] a_ci, output [a_Q-1:0] a_co);\nassign a_co = a_ci + a_Q;\nendmodule')
add('copy_localparams_of', SRC + "m.copy_params_as_localparams(s, 'k_')\nm.copy_ports(s, 'k_', include=('ci', 'co'), use_fullmatch=True)\nm['k_co'].assign(m['k_ci'] + m['k_P'])\n",
    'module top(input CLK, input RST, input [7:0] k_ci, output [7:0] k_co);\nassign k_co = k_ci + 6;\nendmodule')
add('copy_fullmatch', SRC + "m.copy_params(s)\nm.copy_ports(s, include=('c', 'ci', 'co'), use_fullmatch=True)\nm['co'].assign(m['ci'])\n", 'module top #(parameter P = 6, parameter [7:0] Q = 8)(input CLK, input RST, input [7:0] ci, output [7:0] co);\nassign co = ci;\nendmodule')
add('sim_ports', "s = mksub('sub')\nx = m.Input('x', 8)\nz = m.Output('z', 8)\ny9 = m.Output('y9', 9)\nm.copy_params(s)\nm.copy_localparams(s)\nd = m.copy_sim_ports(s, exclude=('CLK', 'RST'), use_wire=True)\nm['a'].assign(x)\nm['b'].assign(x + 1)\nm['en'].assign(1)\nz.assign(m['q'])\ny9.assign(m['y'])\nm.Instance(s, 'u', m.connect_params(s), m.connect_ports(s))\n",
    'module top #(parameter W = 8, parameter I = 3)(input CLK, input RST, input [7:0] x, output [7:0] z, output [8:0] y9);\n' + inst('u', 8, 3, 'x', 'x + 8\'d1', '1') + 'assign z = uq; assign y9 = uy;\nendmodule')
add('sim_ports_reg', "s = mksub('sub')\nx = m.Input('x', 8)\nz = m.Output('z', 8)\nd = m.copy_params_as_localparams(s)\nm.copy_localparams(s)\nd = m.copy_ports_as_vars(s, exclude=('CLK', 'RST'))\nm.Always(Posedge(CLK))(m['a'](x), m['b'](m['a']), m['en'](m['a'][0]))\nz.assign(m['q'] + m['y'])\nm.Instance(s, 'u', ports=m.connect_ports(s))\n",
    'module top(input CLK, input RST, input [7:0] x, output [7:0] z);\nreg [7:0] a, b; reg en; always @(posedge CLK) begin a <= x; b <= a; en <= a[0]; end\n' + inst('u', 8, 3, 'a', 'b', 'en') + 'assign z = uq + uy;\nendmodule')
add('like', "x = m.Input('x', 5, signed=True)\ny = m.InputLike(x, 'y')\np = m.OutputLike(x, 'p')\nq = m.OutputRegLike(x, 'q')\nz = m.OutputLike(x, 'z', width=7, signed=False)\nw = m.WireLike(x, 'w')\nv = m.RegLike(w, 'v', initval=2)\nu = m.TmpRegLike(v)\nt = m.TmpWireLike(z)\nw.assign(x * y)\nt.assign(w)\np.assign(w >> 1)\nz.assign(t)\nm.Always(Posedge(CLK))(If(RST)(q(0), v(0), u(0)).Else(v(x), u(v), q(Mux(u < 0, y, u))))\n",
    'module top(input CLK, input RST, input signed [4:0] x, input signed [4:0] y, output signed [4:0] p, output reg signed [4:0] q, output [6:0] z);\nwire signed [4:0] w; reg signed [4:0] v, u; wire [6:0] t; assign w = x * y; assign t = w; assign p = w >> 1; assign z = t;\nalways @(posedge CLK) if (RST) begin q <= 0; v <= 0; u <= 0; end else begin v <= x; u <= v; q <= (u < 0) ? y : u; end\nendmodule')

# submodules
add('submodule', "s = mksub('sub')\nx = m.Input('x', 8)\nz = m.Output('z', 8)\ny9 = m.Output('y9', 9)\nu = Submodule(m, s, 'u', arg_ports=dict(CLK=CLK, RST=RST, a=x, en=x[0]), as_wire=('b',))\nu.b.assign(x + 1)\nz.assign(u['q'])\ny9.assign(u.y)\n",
    top(['input [7:0] x', 'output [7:0] z', 'output [8:0] y9'], inst('u', 8, 3, 'x', "x + 8'd1", 'x[0]') + 'assign z = uq; assign y9 = uy;'))
add('submodule_pos', "s = mksub('sub')\nx = m.Input('x', 8)\nz = m.Output('z', 8)\ny9 = m.Output('y9', 9)\nu = Submodule(m, s, 'u', arg_params=(8, 77), arg_ports=(CLK, RST, x, x, x[0]))\nz.assign(u['q'])\ny9.assign(u.y)\n",
    top(['input [7:0] x', 'output [7:0] z', 'output [8:0] y9'], inst('u', 8, 77, 'x', "x", 'x[0]') + 'assign z = uq; assign y9 = uy;'))
add('submodule_params', "P = m.Parameter('P', 4)\ns = mksub('sub')\nx = m.Input('x', 4)\nz = m.Output('z', 4)\ny9 = m.Output('y9', 5)\nu = Submodule(m, s, 'u', arg_params=[('W', P)], arg_ports=[('CLK', CLK), ('RST', RST), ('a', x), ('b', x), ('en', 1)])\nz.assign(u['q'])\ny9.assign(u.y)\n",
    top(['input [3:0] x', 'output [3:0] z', 'output [4:0] y9'], inst('u', 4, 3, 'x', "x", '1') + 'assign z = uq; assign y9 = uy;').replace('module top(', 'module top #(parameter P = 4)('))
add('submodule_io', "s = mksub('sub')\nz = m.Output('z', 8)\nu = Submodule(m, s, 'u', prefix='pp_', arg_ports=dict(CLK=CLK, RST=RST), as_io=('a', 'y'))\nm.Always(Posedge(CLK))(u.b(u.a), u.en(u.a[1]))\nz.assign(u.q)\n",
    top(['output [7:0] z', 'input [7:0] pp_a', 'output signed [8:0] pp_y'], "reg [7:0] b; reg en; always @(posedge CLK) begin b <= pp_a; en <= pp_a[1]; end\n" + inst('u', 8, 3, 'pp_a', "b", 'en') + 'assign z = uq; assign pp_y = uy;'))
add('submodule_two', "s = mksub('sub')\nx = m.Input('x', 8)\nz = m.Output('z', 8)\nu = Submodule(m, s, 'u', arg_params=(8,), arg_ports=dict(CLK=CLK, RST=RST, a=x, b=3, en=1))\nv = Submodule(m, s, 'v', arg_params=dict(W=4, I=9), arg_ports=dict(CLK=CLK, RST=RST, a=u.q[2:6], b=u.y[0:4], en=u.q[0]))\nz.assign(Cat(v.q, v.y[1:5]))\n",
    top(['input [7:0] x', 'output [7:0] z'], inst('u', 8, 3, 'x', '3', '1') + inst('v', 4, 9, 'uq[5:2]', 'uy[3:0]', 'uq[0]') + 'assign z = {vq, vy[4:1]};'))
VSUB = 'module vs #(parameter W = 4)(input CLK, input [W-1:0] d, output reg [W-1:0] q, output [W:0] e);\nlocalparam K = W + 1;\nalways @(posedge CLK) q <= d + K;\nassign e = d + q;\nendmodule\nmodule vt(input CLK, input [7:0] d, output [7:0] q);\nvs #(.W(8)) i(.CLK(CLK), .d(d), .q(q));\nendmodule\n'
add('submodule_verilog', "x = m.Input('x', 6)\nz = m.Output('z', 6)\ne = m.Output('e', 7)\nu = Submodule(m, V, 'u', arg_params=(6,), arg_ports=dict(CLK=CLK, d=x), topmodule='vs')\nz.assign(u.q)\ne.assign(u.e)\n", top(['input [5:0] x', 'output [5:0] z', 'output [6:0] e'], 'reg [5:0] q; always @(posedge CLK) q <= x + 7; assign z = q; assign e = x + q;'), env={'V': VSUB}, warm=3)
add('submodule_verilog_first', "x = m.Input('x', 4)\nz = m.Output('z', 4)\nu = Submodule(m, V, 'u', arg_ports=dict(CLK=CLK, d=x))\nz.assign(u.q)\n", top(['input [3:0] x', 'output [3:0] z'], 'reg [3:0] q; always @(posedge CLK) q <= x + 5; assign z = q;'), env={'V': VSUB}, warm=3)
add('submodule_verilog_nested', "x = m.Input('x', 8)\nz = m.Output('z', 8)\nu = Submodule(m, V, 'u', arg_ports=dict(CLK=CLK, d=x), topmodule='vt')\nz.assign(u.q)\n", top(['input [7:0] x', 'output [7:0] z'], 'reg [7:0] q; always @(posedge CLK) q <= x + 9; assign z = q;'), env={'V': VSUB}, warm=3)

# generate blocks
add('gen_for_assign', "x = m.Input('x', 8)\nz = m.Output('z', 8)\ni = m.Genvar('i')\ng = m.GenerateFor(i(0), i < 8, i(i + 1), 'g')\ng.Assign(z[i](x[7 - i]))\n", top(['input [7:0] x', 'output [7:0] z'], 'assign z = {x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]};'))
add('gen_for_step', "x = m.Input('x', 8)\nz = m.Output('z', 8)\ni = m.Genvar('i')\nP = m.Parameter('P', 2)\ng = m.GenerateFor(i(0), i < 8, i(i + P), 'g')\nw = g.Wire('w', 2)\nw.assign(x[i] + x[i + 1])\ng.Assign(z[i](w[0]))\ng.Assign(z[i + 1](w[1]))\n",
    top(['input [7:0] x', 'output [7:0] z'], 'assign z = {x[7] & x[6], x[7] ^ x[6], x[5] & x[4], x[5] ^ x[4], x[3] & x[2], x[3] ^ x[2], x[1] & x[0], x[1] ^ x[0]};').replace('module top(', 'module top #(parameter P = 2)('))
add('gen_for_always', "x = m.Input('x', 8)\nz = m.Output('z', 8)\ni = m.Genvar('i')\ng = m.GenerateFor(i(0), i < 4, i(i + 1), 'g')\nr = g.Reg('r', 2)\ng.Always(Posedge(CLK))(If(RST)(r(i)).Else(r(r + x[i] + i)))\ng.Assign(z[i * 2](r[0]))\ng.Assign(z[i * 2 + 1](r[1]))\n",
    top(['input [7:0] x', 'output [7:0] z'], ''.join("reg [1:0] r%d; always @(posedge CLK) if (RST) r%d <= %d; else r%d <= r%d + x[%d] + %d;\n" % (i, i, i, i, i, i, i) for i in range(4)) + 'assign z = {r3, r2, r1, r0};'))
add('gen_for_inst', "x = m.Input('x', 8)\nz = m.Output('z', 8)\nen = m.Input('en', 4)\ni = m.Genvar('i')\nq = m.Wire('q', 2, dims=4)\nP = m.Parameter('N', 4)\ng = m.GenerateFor(i(0), i < P, i(i + 1), 'g')\ny = g.Wire('y', 3)\ng.Instance(mksub('sub', 5, 6), 'u', dict(W=2, I=i), dict(CLK=CLK, RST=RST, a=Cat(x[i * 2 + 1], x[i * 2]), b=Int(1, width=2), en=en[i], q=q[i], y=y))\nz.assign(Cat(q[3], q[2], q[1], q[0]))\n",
    top(['input [7:0] x', 'output [7:0] z', 'input [3:0] en'], ''.join(inst('u%d' % i, 2, i, 'x[%d:%d]' % (2 * i + 1, 2 * i), '1', 'en[%d]' % i) for i in range(4)) + 'assign z = {u3q, u2q, u1q, u0q};').replace('module top(', 'module top #(parameter N = 4)('))
add('gen_scope', "x = m.Input('x', 8)\nz = m.Output('z', 8)\ni = m.Genvar('i')\ng = m.GenerateFor(i(0), i < 4, i(i + 1), 'g')\nw = g.Wire('w', 8)\nw.assign(x + i)\nz.assign(g[0].w ^ (g[1].w & g[3].w))\n" if False else "x = m.Input('x', 8)\nz = m.Output('z', 8)\ni = m.Genvar('i')\ng = m.GenerateFor(i(0), i < 4, i(i + 1), 'g')\nw = g.Wire('w', 8)\nw.assign(x + i)\nz.assign(Scope(g[0], w) ^ (Scope(g[1], w) & Scope(g[3], w)))\n",
    top(['input [7:0] x', 'output [7:0] z'], 'wire [7:0] w0, w1, w3; assign w0 = x; assign w1 = x + 1; assign w3 = x + 3; assign z = w0 ^ (w1 & w3);'))
add('gen_nested', "x = m.Input('x', 9)\nz = m.Output('z', 9)\ni = m.Genvar('i')\nj = m.Genvar('j')\ng = m.GenerateFor(i(0), i < 3, i(i + 1), 'g')\nh = g.GenerateFor(j(0), j < 3, j(j + 1), 'h')\nh.Assign(z[i * 3 + j](x[j * 3 + i]))\n", top(['input [8:0] x', 'output [8:0] z'], 'assign z = {x[8], x[5], x[2], x[7], x[4], x[1], x[6], x[3], x[0]};'))
for P in (0, 1, 2, 5):
    add('gen_if_%d' % P, "P = m.Parameter('P', %d)\nx = m.Input('x', 8)\nz = m.Output('z', 8)\ng = m.GenerateIf(P > 1, 'yes')\ng.Assign(z[0:8](x + P))\ne = g.Else('no')\nh = e.GenerateIf(P == 1, 'one')\nh.Assign(z[0:8](x - 1))\nk = h.Else('zero')\nk.Assign(z[0:8](~x))\n" % P,
        top(['input [7:0] x', 'output [7:0] z'], 'assign z = %s;' % {0: '~x', 1: "x - 8'd1", 2: "x + 8'd2", 5: "x + 8'd5"}[P]).replace('module top(', 'module top #(parameter P = 1)('))
    add('gen_if_top_%d' % P, "P = m.Parameter('P', 1)\nx = m.Input('x', 8)\nz = m.OutputReg('z', 8)\ng = m.GenerateIf(P > 1)\ng.Always(Posedge(CLK))(If(RST)(z(P)).Else(z(z + x)))\ng.Else.Always(Posedge(CLK))(z(x))\n",
        top(['input [7:0] x', 'output reg [7:0] z'], 'always @(posedge CLK) %s;' % ('if (RST) z <= %d; else z <= z + x' % P if P > 1 else 'z <= x')).replace('module top(', 'module top #(parameter P = 1)('), params={'P': P}, warm=3)
add('gen_if_for', "P = m.Parameter('P', 1)\nx = m.Input('x', 4)\nz = m.Output('z', 4)\ni = m.Genvar('i')\ng = m.GenerateIf(P, 'a')\nf = g.GenerateFor(i(0), i < 4, i(i + 1), 'f')\nc = f.GenerateIf(i % 2 == 0, 'even')\nc.Assign(z[i](x[i]))\nd = c.Else('odd')\nd.Assign(z[i](Not(x[i])))\ng.Else('b').Assign(z(0))\n", top(['input [3:0] x', 'output [3:0] z'], "assign z = x ^ 4'b1010;").replace('module top(', 'module top #(parameter P = 1)('))
add('gen_if_for_off', "P = m.Parameter('P', 1)\nx = m.Input('x', 4)\nz = m.Output('z', 4)\ni = m.Genvar('i')\ng = m.GenerateIf(P, 'a')\nf = g.GenerateFor(i(0), i < 4, i(i + 1), 'f')\nf.Assign(z[i](x[i]))\ng.Else('b').Assign(z(9))\n", top(['input [3:0] x', 'output [3:0] z'], "assign z = 9;").replace('module top(', 'module top #(parameter P = 1)('), params={'P': 0})
GSEQ = "def mkcnt(name, k):\n    s = Module(name)\n    c = s.Input('CLK')\n    r = s.Input('RST')\n    q = s.OutputReg('q', 4, initval=k)\n    e = s.Input('e')\n    q2 = s.OutputReg('q2', 4, initval=0)\n    sq = Seq(s, 'sq', c, r)\n    sq.If(e)(q.inc())\n    f = FSM(s, 'f', c, r)\n    f(q2(q2 + 1))\n    f.If(e).goto_next()\n    f(q2(q2 + 2))\n    f.goto_init()\n    return s\n"
CNT = lambda p, k, e: 'reg [3:0] %sq, %sq2; reg %sf; always @(posedge CLK) if (RST) begin %sq <= %d; %sq2 <= 0; %sf <= 0; end else begin if (%s) %sq <= %sq + 1; if (%sf == 0) begin %sq2 <= %sq2 + 1; if (%s) %sf <= 1; end else begin %sq2 <= %sq2 + 2; %sf <= 0; end end\n' % (p, p, p, p, k, p, p, e, p, p, p, p, p, e, p, p, p, p)
CIO4 = ['input [3:0] e', 'output [15:0] q', 'output [15:0] q2']
CIOS = "e = m.Input('e', 4)\nq = m.Output('q', 16)\nq2 = m.Output('q2', 16)\nw = [m.Wire('w%d' % i, 4) for i in range(4)]\nw2 = [m.Wire('v%d' % i, 4) for i in range(4)]\nq.assign(Cat(*w))\nq2.assign(Cat(*w2))\n"
CREF = top(CIO4, ''.join(CNT('u%d' % i, 5, 'e[%d]' % i) for i in range(4)) + 'assign q = {u0q, u1q, u2q, u3q}; assign q2 = {u0q2, u1q2, u2q2, u3q2};')
add('hook_sub', GSEQ + CIOS + "s = mkcnt('cnt', 5)\nfor i in range(4): m.Instance(s, 'u%d' % i, ports=dict(CLK=CLK, RST=RST, e=e[i], q=w[i], q2=w2[i]))\n", CREF)
add('hook_sub4', GSEQ + CIOS + "for i in range(4): m.Instance(mkcnt('cnt', 5 + i), 'u%d' % i, ports=dict(CLK=CLK, RST=RST, e=e[i], q=w[i], q2=w2[i]))\n", top(CIO4, ''.join(CNT('u%d' % i, 5 + i, 'e[%d]' % i) for i in range(4)) + 'assign q = {u0q, u1q, u2q, u3q}; assign q2 = {u0q2, u1q2, u2q2, u3q2};'))
GW = "e = m.Input('e', 4)\nq = m.Output('q', 16)\nq2 = m.Output('q2', 16)\ni = m.Genvar('i')\nw = m.Wire('w', 4, dims=4)\nw2 = m.Wire('w2', 4, dims=4)\nq.assign(Cat(w[0], w[1], w[2], w[3]))\nq2.assign(Cat(w2[0], w2[1], w2[2], w2[3]))\ng = m.GenerateFor(i(0), i < 4, i(i + 1), 'g')\n"
add('hook_gen', GSEQ + GW + "g.Instance(mkcnt('cnt', 5), 'u', ports=dict(CLK=CLK, RST=RST, e=e[i], q=w[i], q2=w2[i]))\n", CREF)
add('hook_gen_seq', GW + "r = g.Reg('r', 4, initval=5)\nsq = Seq(g, 'sq', CLK, RST)\nsq.If(e[i])(r.inc())\ng.Assign(w[i](r))\ng.Assign(w2[i](r + i))\n",
    top(CIO4, ''.join('reg [3:0] r%d; always @(posedge CLK) if (RST) r%d <= 5; else if (e[%d]) r%d <= r%d + 1;\n' % (i, i, i, i, i) for i in range(4)) + "assign q = {r0, r1, r2, r3}; assign q2 = {r0, r1 + 4'd1, r2 + 4'd2, r3 + 4'd3};"))
add('hook_gen_if', GSEQ + "P = m.Parameter('P', 1)\ne = m.Input('e')\nq = m.Output('q', 4)\nq2 = m.Output('q2', 4)\ng = m.GenerateIf(P, 'g')\ng.Instance(mkcnt('cnt', 5), 'u', ports=dict(CLK=CLK, RST=RST, e=e, q=q, q2=q2))\nh = g.Else('h')\nh.Instance(mkcnt('cnt', 2), 'u', ports=dict(CLK=CLK, RST=RST, e=e, q=q, q2=q2))\n",
    top(['input e', 'output [3:0] q', 'output [3:0] q2'], CNT('u', 5, 'e') + 'assign q = uq; assign q2 = uq2;').replace('module top(', 'module top #(parameter P = 1)('))
add('hook_gen_if0', GSEQ + "P = m.Parameter('P', 1)\ne = m.Input('e')\nq = m.Output('q', 4)\nq2 = m.Output('q2', 4)\ng = m.GenerateIf(P, 'g')\ng.Instance(mkcnt('cnt', 5), 'u', ports=dict(CLK=CLK, RST=RST, e=e, q=q, q2=q2))\nh = g.Else('h')\nh.Instance(mkcnt('cnt', 2), 'u', ports=dict(CLK=CLK, RST=RST, e=e, q=q, q2=q2))\n",
    top(['input e', 'output [3:0] q', 'output [3:0] q2'], CNT('u', 2, 'e') + 'assign q = uq; assign q2 = uq2;').replace('module top(', 'module top #(parameter P = 1)('), params={'P': 0})
add('gen_inst_names', "x = m.Input('x', 4)\nz = m.Output('z', 5)\ny = m.Output('y', 5)\nP = m.Parameter('P', 1)\nm.Instance(mksub('sub', 4, 5, 1), 'v', None, dict(CLK=CLK, RST=RST, a=x, b=x, en=1, y=z))\ng = m.GenerateIf(P, 'g')\ng.Instance(mksub('sub', 4, 5, 2), 'v2', None, dict(CLK=CLK, RST=RST, a=x, b=x, en=1, y=y))\n",
    top(['input [3:0] x', 'output [4:0] z', 'output [4:0] y'], inst('v', 4, 5, 'x', 'x', '1', 1) + inst('w', 4, 5, 'x', 'x', '1', 2) + 'assign z = vy; assign y = wy;').replace('module top(', 'module top #(parameter P = 1)('))
add('same_as_top', "x = m.Input('x', 4)\nz = m.Output('z', 5)\nm.Instance(mksub('top', 4, 5, 1), 'v', None, dict(CLK=CLK, RST=RST, a=x, b=x, en=1, y=z))\n", top(['input [3:0] x', 'output [4:0] z'], inst('v', 4, 5, 'x', 'x', '1', 1) + 'assign z = vy;'))
add('func_task', "x = m.Input('x', 4)\nz = m.Output('z', 8)\ny = m.OutputReg('y', 4)\nP = m.Parameter('P', 3)\nf = m.Function('f', 8)\na = f.Input('a', 4)\nb = f.Input('b', 4)\nf.Body(f(a * b + P))\nt = m.Task('t')\nu = t.Input('u', 4)\nt.Body(y(u + P))\nz.assign(f.call(x, x + 1))\nm.Always(Posedge(CLK))(If(RST)(y(0)).Else(t.call(x)))\n",
    'module top #(parameter P = 3)(input CLK, input RST, input [3:0] x, output [7:0] z, output reg [3:0] y);\nwire [3:0] x1 = x + 1; assign z = x * x1 + 3; always @(posedge CLK) if (RST) y <= 0; else y <= x + 3;\nendmodule')

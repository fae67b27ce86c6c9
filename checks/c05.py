"""C05: Verilog text -> read_verilog_module_str -> to_verilog has the ports, parameters and behaviour of the original text."""
from vlib.harness import Registry
from checks.equiv import equiv

R = Registry('C05', 'translation_validation', ['verilog/from_verilog.py', 'verilog/to_verilog.py', 'core/module.py', 'core/vtypes.py', 'core/function.py', 'core/task.py'],
             assumptions=['two-state logic; both designs start from two cycles of reset and then see the same arbitrary inputs (resets included) for the stated cycles',
                          'the corpus of source texts is fixed (every construct the reader has a visitor for); inputs and states are symbolic'],
             explanation='Each Verilog source text is read by the real reader into module objects and emitted again; the original and the emitted text are both elaborated by an independent Verilog front end, '
                         'executed symbolically side by side with the same inputs, and all outputs compared in every cycle by SMT queries; port lists and the parameter defaults must agree (also under overridden parameters).')


def imp(text, top='top'):
    def f():
        from veriloggen.verilog.from_verilog import read_verilog_module_str
        return read_verilog_module_str(text)[top]
    return f


def vtext(ports, body, params=None, rest=''):
    return 'module top %s(%s);\n%s\nendmodule\n%s' % ('#(%s)\n' % params if params else '', ', '.join(['input CLK', 'input RST'] + list(ports)), body, rest)


def add(name, text, **kw):
    tier = kw.pop('tier', 'quick')
    kw.setdefault('check_ports', True)
    R.add(name, equiv(imp(text), lambda: text, top='top', rtop='top', **kw), tier)


def comb(name, ins, out, expr, **kw):
    add(name, vtext(ins.split(', ') + [out], 'assign %s = %s;' % (out.split()[-1], expr)), cycles=1, warm=1, **kw)


AB = 'input [7:0] a, input [7:0] b'
SAB = 'input signed [7:0] a, input signed [5:0] b'
# --- expressions: precedence, associativity, width and sign context
for i, (ins, out, e) in enumerate([
        (AB, 'output [8:0] z', 'a - b - 1'), (AB, 'output [8:0] z', 'a - (b - 1)'), (AB, 'output [15:0] z', 'a * b + a << 2'), (AB, 'output [7:0] z', '(a + b) >> 1'),
        (AB, 'output [7:0] z', '{1\'b0, a + b} >> 1'), (AB, 'output [8:0] z', '(a + b) >> 1'), (AB, 'output z', 'a < b == b > a'), (AB, 'output z', 'a < b && b < 9 || !a'),
        (AB, 'output z', 'a & b == 3'), (AB, 'output [7:0] z', 'a | b & ~a ^ 3'), (AB, 'output [7:0] z', 'a ~^ b'), (AB, 'output [7:0] z', '~(a ^ b) | -b'), (AB, 'output z', '&a | ^b & ~|a'),
        (AB, 'output z', '~&a ^ ~^b'), (AB, 'output [7:0] z', 'a[3] ? b : a[2] ? a : 8\'h5a'), (AB, 'output [7:0] z', '(a[3] ? b : a[2]) ? a : 8\'h5a'), (AB, 'output [7:0] z', 'a == b ? a + 1 : b - 1'),
        (AB, 'output [7:0] z', '{a[3:0], b[7:4]}'), (AB, 'output [15:0] z', '{4{a[3:0]}} ^ {b, a}'), (AB, 'output [23:0] z', '{2{a, 4\'d9}}'), (AB, 'output [7:0] z', 'a[b[2:0]] + b[0]'),
        (AB, 'output [9:0] z', 'a + b + 9\'d3'), (AB, 'output [9:0] z', "a + 4'hf + 'h10 + 'b11 + 8'o17"),
        (AB, 'output [7:0] z', "a ^ 8'b1010_0101"), (SAB, 'output signed [8:0] z', 'a + b'), (SAB, 'output signed [8:0] z', "a + b - 4'sd3"), (SAB, 'output signed [13:0] z', 'a * b'),
        (SAB, 'output signed [8:0] z', "a + b + 4'd3"), (SAB, 'output signed [7:0] z', 'a >>> 2'), (SAB, 'output [7:0] z', 'a >> 2'), (SAB, 'output signed [8:0] z', '-a'), (SAB, 'output z', 'a < b'),
        (SAB, 'output z', 'a < -1'), (SAB, 'output z', "a < 4'd5"), (SAB, 'output z', "a >= 4'sd5"), (SAB, 'output signed [9:0] z', 'a[3:0] + b'), (SAB, 'output signed [9:0] z', '$signed(a[3:0]) + b'),
        (SAB, 'output [9:0] z', '$unsigned(a) + b'), (SAB, 'output signed [9:0] z', "(a > b) ? a : b"), (SAB, 'output signed [9:0] z', "(a > b) ? a : 4'd3"), (SAB, 'output signed [9:0] z', "{a} + b"),
        (SAB, 'output signed [9:0] z', "$signed({a, 1'b0}) >>> 3"), (SAB, 'output [9:0] z', '~a'), (SAB, 'output [9:0] z', '+a'), (AB, 'output [7:0] z', 'a / 8\'d3 + b % 8\'d5'), (AB, 'output [7:0] z', 'a << b[2:0]'),
        (AB, 'output [7:0] z', 'a === b'), (AB, 'output [7:0] z', 'a !== b'), (AB, 'output [7:0] z', 'a != b'), (AB, 'output [31:0] z', '2 ** 5 + a'), (AB, 'output [7:0] z', 'a - -b'), (AB, 'output z', '!(a && b) || !b'),
        (AB, 'output [7:0] z', "8'shff + a"), (AB, 'output [15:0] z', "8'shff + 16'sd0"), (AB, 'output [15:0] z', "$signed(a) + 16'sd0"), (AB, 'output [15:0] z', "-8'd1 + a"), (AB, 'output [15:0] z', "~8'd0 + a"),
        (AB, 'output [15:0] z', "(a << 8) | b"), (AB, 'output [15:0] z', "'d10 + a"), (AB, 'output [39:0] z', "a + 40'hffffffffff"), (AB, 'output [39:0] z', "a + 4294967295"), (AB, 'output [15:0] z', '"A" + a'), (AB, 'output [23:0] z', '{"AB", a}'),
        (AB, 'output [7:0] z', 'a > b ? b > 3 ? 1 : 2 : 3'), (AB, 'output [7:0] z', '(a ? b : 0) & ~(b ? a : 0)'), (AB, 'output [7:0] z', '- (a + b) * 3'), (AB, 'output [7:0] z', 'a >> 2 >> 1'), (AB, 'output [7:0] z', 'a >> (3 >> 1)'),
        (AB, 'output [7:0] z', '~a[3:0]'), (AB, 'output [7:0] z', '-a[3:0]'), (AB, 'output z', '~&{a, b}'), (AB, 'output [7:0] z', "&a ? 8'd1 : |b"), (AB, 'output z', '(a == b) == (b == a[3:0])')]):
    comb('expr_%02d' % i, ins, out, e)

# --- declarations and ports
add('ports_v95', 'module top(CLK, RST, a, b, z, y, r);\ninput CLK, RST;\ninput [7:0] a;\ninput signed [3:0] b;\noutput [8:0] z;\noutput signed [7:0] y;\noutput r;\nreg r;\nreg [8:0] z;\nwire signed [7:0] y;\n'
    'assign y = b;\nalways @(posedge CLK) begin z <= a + b; r <= &a; end\nendmodule\n')
add('ports_v95_2', 'module top(CLK, RST, a, z);\nparameter W = 6;\nparameter V = W + 1;\ninput CLK;\ninput RST;\ninput [W-1:0] a;\noutput reg [V-1:0] z;\nalways @(posedge CLK) if (RST) z <= 0; else z <= z + a;\nendmodule\n')
add('ports_v95_param', 'module top(CLK, RST, a, z);\nparameter W = 6;\nparameter V = W + 1;\ninput CLK;\ninput RST;\ninput [W-1:0] a;\noutput reg [V-1:0] z;\nalways @(posedge CLK) if (RST) z <= 0; else z <= z + a;\nendmodule\n', params={'W': 3}, rparams={'W': 3})
add('params', vtext(['input [W-1:0] a', 'output [2*W-1:0] z'], 'localparam K = W * 2 + I;\nlocalparam [3:0] L = K;\nlocalparam signed [3:0] S = 15;\nassign z = a * K + L + S;', params='parameter W = 4, parameter I = 3'))
add('params_over', vtext(['input [W-1:0] a', 'output [2*W-1:0] z'], 'localparam K = W * 2 + I;\nlocalparam [3:0] L = K;\nlocalparam signed [3:0] S = 15;\nassign z = a * K + L + S;', params='parameter W = 4, parameter I = 3'),
    params={'W': 6, 'I': 9}, rparams={'W': 6, 'I': 9})
add('params_typed', vtext(['input [7:0] a', 'output [15:0] z'], "assign z = a + P + Q;", params="parameter [3:0] P = 20, parameter signed [3:0] Q = -3"))
add('params_typed2', vtext(['input signed [7:0] a', 'output signed [15:0] z'], "assign z = a + Q;", params="parameter [3:0] P = 20, parameter signed [3:0] Q = -3"))
LS = 'assign z = {a < %s, a + %s > 10, (%s >>> 1) < a, %s * a < 5};\nassign y = %s;\nassign x = a + %s;'
LIO = ['input signed [7:0] a', 'output [3:0] z', 'output signed [15:0] y', 'output signed [15:0] x']
for n, (d, pr) in {'lp': ('localparam signed [3:0] S = -3;', ''), 'lpu': ('localparam [3:0] S = -3;', ''), 'lpi': ('localparam S = -3;', ''), 'lps': ('localparam signed S = -3;', ''),
                   'p': ('', 'parameter signed [3:0] S = -3'), 'pu': ('', 'parameter [3:0] S = -3'), 'pi': ('', 'parameter S = -3'), 'ps': ('', 'parameter signed S = -3'),
                   'lpp': ('localparam signed [3:0] S = P - 1;', 'parameter signed [3:0] P = -3'),
                   'w': ('wire signed [3:0] S;\nassign S = a[3:0];', ''), 'wu': ('wire [3:0] S;\nassign S = a[3:0];', ''),
                   'r': ('reg signed [3:0] S;\nalways @(posedge CLK) S <= a;', ''), 'ru': ('reg [3:0] S;\nalways @(posedge CLK) S <= a;', ''),
                   'i': ('integer S;\nalways @(posedge CLK) S <= a;', ''), 'wd': ('wire signed [3:0] S = a[3:0];', '')}.items():
    add('sign_' + n, vtext(LIO, d + '\n' + LS.replace('%s', 'S'), params=pr))
add('params_str', vtext(['input [7:0] a', 'output [15:0] z'], "assign z = a + P;", params='parameter P = 8\'hf0'))
for n, d in dict(asc='[0:7]', off='[9:2]', neg='[3:-4]', expr='[W*2-1:0]', one='[0:0]', dexpr='[W+3:W-4]').items():
    add('range_' + n, vtext(['input %s a' % d, 'output %s z' % d, 'output [7:0] y'], 'wire %s w;\nreg %s r;\nassign w = a + 1;\nassign z = r;\nassign y = w ^ r;\nalways @(posedge CLK) r <= w;' % (d, d), params='parameter W = 4'))
add('range_sel', vtext(['input [9:2] a', 'output [3:0] z', 'output y', 'output [3:0] x'], 'assign z = a[7:4];\nassign y = a[3];\nassign x = {a[9], a[2], a[5:4]};'))
add('range_sel_asc', vtext(['input [0:7] a', 'output [3:0] z', 'output y'], 'assign z = a[2:5];\nassign y = a[7];'))
add('mem', vtext(['input [7:0] d', 'input [1:0] wa', 'input [1:0] ra', 'input we', 'output [7:0] z', 'output reg [7:0] y'], 'reg [7:0] mem [0:3];\nassign z = mem[ra];\nalways @(posedge CLK) begin if (we) mem[wa] <= d; y <= mem[ra]; end'), initzero=True, reset='no')
add('mem_asc', vtext(['input [7:0] d', 'input [1:0] wa', 'input [1:0] ra', 'input we', 'output [7:0] z'], 'reg [7:0] mem [3:0];\nassign z = mem[ra];\nalways @(posedge CLK) begin if (we) mem[wa] <= d; end'), initzero=True, reset='no')
add('mem_off', vtext(['input [7:0] d', 'input [2:0] wa', 'input [2:0] ra', 'input we', 'output [7:0] z'], 'reg [7:0] mem [2:5];\nassign z = (ra >= 2 && ra <= 5)? mem[ra] : 0;\nalways @(posedge CLK) begin if (we && wa >= 2 && wa <= 5) mem[wa] <= d; end'), initzero=True, reset='no')
add('mem_param', vtext(['input [W-1:0] d', 'input [1:0] wa', 'input [1:0] ra', 'input we', 'output [W-1:0] z'], 'reg signed [W-1:0] mem [0:N-1];\nassign z = mem[ra];\nalways @(posedge CLK) begin if (we) mem[wa] <= d; end', params='parameter W = 5, parameter N = 4'), initzero=True, reset='no')
add('mem_wire', vtext(['input [7:0] d', 'output [7:0] z'], 'wire [7:0] w [0:2];\nassign w[0] = d;\nassign w[1] = w[0] + 1;\nassign w[2] = w[1] ^ w[0];\nassign z = w[2];'))
add('mem_init', vtext(['input [1:0] ra', 'output [7:0] z'], 'reg [7:0] mem [0:3];\ninteger i;\ninitial begin for (i = 0; i < 4; i = i + 1) mem[i] = i * 17 + 1; end\nassign z = mem[ra];'), reset='no')
add('reg_init', vtext(['input d', 'output reg [3:0] z'], 'initial begin z = 5; end\nalways @(posedge CLK) z <= z + d;'), reset='no')
add('reg_decl_init', vtext(['input d', 'output [3:0] z'], 'reg [3:0] r = 5; reg [3:0] q = 3;\nassign z = r ^ q;\nalways @(posedge CLK) begin r <= r + d; q <= q + r; end'), reset='no')
add('wire_decl_init', vtext(['input [3:0] d', 'output [3:0] z'], 'wire [3:0] w = d + 1; wire [3:0] v = w ^ d;\nassign z = v + w;'))
add('wire_decl_signed', vtext(['input signed [3:0] d', 'output [7:0] z'], 'wire signed [3:0] w = d;\nassign z = w;'))
add('multi_decl', vtext(['input [3:0] d', 'output [3:0] z'], 'wire [3:0] u, v;\nreg [3:0] p, q;\nreg s, t;\nassign u = d; assign v = u + 1;\nassign z = p ^ q ^ s ^ t ^ v;\nalways @(posedge CLK) begin p <= v; q <= p; s <= d[0]; t <= s; end'))
add('integer', vtext(['input [3:0] d', 'output [7:0] z'], 'integer i;\nalways @(posedge CLK) if (RST) i <= -1; else i <= i - d;\nassign z = i / 2;'))
add('supply', vtext(['input [3:0] d', 'output [3:0] z'], 'supply0 g;\nsupply1 p;\nassign z = {d[0] & g, d[1] & p, p, g};'))
add('implicit_wire', vtext(['input [3:0] d', 'output [3:0] z'], 'wire w;\nassign w = ^d;\nassign z = {3\'d0, w};'))
add('inout', vtext(['input oe', 'input [3:0] d', 'output [3:0] z'], 'assign z = oe ? d : 4\'d0;'))
add('names', vtext(['input [3:0] a$b', 'output [3:0] _z'], 'wire [3:0] top_w;\nassign top_w = a$b;\nassign _z = top_w + 1;'))
add('timescale', '`timescale 1ns/1ps\n`default_nettype none\n' + vtext(['input wire [3:0] a', 'output wire [4:0] z'], 'assign z = a + 1; // comment\n/* block\ncomment */'), cycles=1)
add('attr', vtext(['input [3:0] a', 'output reg [4:0] z'], 'always @* begin : blk\nz = a; end'), cycles=1)

# --- always blocks and statements
add('if_chain', vtext(['input [3:0] d', 'input [1:0] s', 'output reg [3:0] z'], 'always @(posedge CLK) if (RST) z <= 0; else if (s == 1) z <= d; else if (s == 2) z <= z + d; else z <= z - 1;'))
add('if_dangling', vtext(['input [3:0] d', 'input [1:0] s', 'output reg [3:0] z'], 'always @(posedge CLK) begin if (RST) z <= 0; if (s[0]) begin if (s[1]) z <= d; end else z <= ~z; end'), initzero=True)
add('if_dangling2', vtext(['input [3:0] d', 'input [1:0] s', 'output reg [3:0] z'], 'always @(posedge CLK) if (RST) z <= 0; else begin if (s[0]) if (s[1]) z <= d; else z <= ~z; end'))
add('if_empty', vtext(['input [3:0] d', 'input [1:0] s', 'output reg [3:0] z'], 'always @(posedge CLK) begin if (RST) z <= 0; else begin if (s[0]) begin end else z <= d; if (s[1]) z <= 1; else begin end end end'))
add('if_null', vtext(['input [3:0] d', 'input [1:0] s', 'output reg [3:0] z'], 'always @(posedge CLK) begin if (RST) z <= 0; else begin if (s[0]) ; else z <= d; end end'))
add('last_wins', vtext(['input [3:0] d', 'input [1:0] s', 'output reg [3:0] z'], 'always @(posedge CLK) begin z <= z + 1; if (s[0]) z <= d; z[1:0] <= s; if (RST) z <= 7; end'))
add('blocking', vtext(['input [3:0] d', 'output reg [3:0] z', 'output reg [3:0] y'], 'reg [3:0] t;\nalways @(posedge CLK) begin t = d + 1; t = t ^ d; z <= t; y <= y + t; if (RST) begin y <= 0; t = 0; end end'))
add('comb_star', vtext(['input [3:0] d', 'input s', 'output reg [3:0] z'], 'reg [3:0] t;\nalways @(*) begin t = d; if (s) t = t + 3; z = ~t; end'))
add('comb_list', vtext(['input [3:0] d', 'input s', 'output reg [3:0] z'], 'always @(d or s) begin z = d; if (s) z = z + 3; end'))
add('comb_comma', vtext(['input [3:0] d', 'input s', 'output reg [3:0] z'], 'always @(d, s) z = s ? d : ~d;'))
add('two_always', vtext(['input [3:0] d', 'output reg [3:0] z', 'output reg [3:0] y'], 'always @(posedge CLK) z <= y + d;\nalways @(posedge CLK) if (RST) y <= 0; else y <= z ^ 1;'))
add('lconcat', vtext(['input [3:0] d', 'output reg [3:0] z', 'output reg c'], 'always @(posedge CLK) if (RST) {c, z} <= 0; else {c, z} <= z + d;'))
add('lconcat2', vtext(['input [7:0] d', 'output [3:0] z', 'output [1:0] y', 'output x'], 'assign {z, x, y} = d + 8\'d1;'))
add('lslice', vtext(['input [3:0] d', 'input [1:0] p', 'output reg [7:0] z'], 'always @(posedge CLK) begin if (RST) z <= 0; else begin z[3:0] <= d; z[p] <= 1; z[7] <= z[0]; z[p + 3] <= d[0]; end end'))
add('case', vtext(['input [3:0] d', 'input [1:0] s', 'output reg [3:0] z'], 'always @(posedge CLK) case (s) 0: z <= d; 2\'d1, 2: begin z <= z + d; end default: z <= 9; endcase'))
add('case_nodef', vtext(['input [3:0] d', 'input [2:0] s', 'output reg [3:0] z'], 'always @(posedge CLK) begin if (RST) z <= 0; else case (s) 3\'b000: z <= d; 3\'b001: ; 3\'b111: begin end 3\'b010: if (d[0]) z <= 1; else z <= 2; endcase end'))
add('case_true', vtext(['input [3:0] d', 'output reg [1:0] z'], 'always @* case (1\'b1) d[3]: z = 3; d[2]: z = 2; d[1]: z = 1; default: z = 0; endcase'))
add('case_first', vtext(['input [3:0] d', 'input [1:0] s', 'output reg [3:0] z'], 'always @* case (s) d[1:0]: z = 1; d[3:2]: z = 2; default: z = d; endcase'))
add('case_nested', vtext(['input [3:0] d', 'input [1:0] s', 'output reg [3:0] z'], 'always @(posedge CLK) if (RST) z <= 0; else case (s) 1: case (d[1:0]) 2: z <= 5; 3: z <= 6; endcase 2: z <= d; default: case (z) 5: z <= 0; default: z <= z + 1; endcase endcase'))
add('casex', vtext(['input [3:0] d', 'output reg [2:0] z'], 'always @* casex (d) 4\'b1xxx: z = 3; 4\'b01xx: z = 2; 4\'b001?: z = 1; 4\'b0000: z = 4; default: z = 0; endcase'))
add('casez', vtext(['input [3:0] d', 'output reg [2:0] z'], 'always @* casez (d) 4\'b1zzz: z = 3; 4\'b01??: z = 2; 4\'b001?: z = 1; 4\'b0000: z = 4; default: z = 0; endcase'))
add('casez_seq', vtext(['input [3:0] d', 'output reg [2:0] z'], 'always @(posedge CLK) if (RST) z <= 0; else casez (d) 4\'b1???: z <= z + 3; 4\'b?1??: z <= 2; endcase'))
add('case_width', vtext(['input [3:0] d', 'output reg [2:0] z'], 'always @* case (d + 4\'d1) 16: z = 3; 5\'d2: z = 2; 0: z = 1; default: z = 0; endcase'))
add('for', vtext(['input [7:0] d', 'output reg [3:0] z'], 'integer i;\nalways @* begin z = 0; for (i = 0; i < 8; i = i + 1) z = z + d[i]; end'))
add('for_down', vtext(['input [7:0] d', 'output reg [7:0] z'], 'integer i;\nalways @* begin z = 0; for (i = 7; i >= 0; i = i - 1) begin z[7 - i] = d[i]; end end'))
add('for_seq', vtext(['input [7:0] d', 'output [7:0] z'], 'integer i;\nreg [7:0] sh [0:3];\nassign z = sh[3];\nalways @(posedge CLK) begin sh[0] <= d; for (i = 1; i < 4; i = i + 1) sh[i] <= sh[i-1]; end'), reset='no', warm=6)
add('for_nested', vtext(['input [8:0] d', 'output reg [8:0] z'], 'integer i, j;\nalways @* for (i = 0; i < 3; i = i + 1) for (j = 0; j < 3; j = j + 1) z[i*3+j] = d[j*3+i];'))
add('while', vtext(['input [3:0] d', 'output reg [3:0] z'], 'integer i;\nalways @* begin i = 0; z = d; while (i < 3) begin z = z ^ (z << 1); i = i + 1; end end'))
add('named_block', vtext(['input [3:0] d', 'output reg [3:0] z'], 'always @(posedge CLK) begin : blk\nif (RST) begin : inner\nz <= 0; end else begin z <= z + d; end end'))
add('nested_begin', vtext(['input [3:0] d', 'output reg [3:0] z'], 'always @(posedge CLK) begin begin z <= d; end begin begin if (d[0]) z <= 1; end end end'))
add('nested_begin2', vtext(['input [3:0] d', 'output reg [3:0] z', 'output reg y'], 'always @(posedge CLK) if (d[1]) begin begin z <= d; y <= 0; end begin if (d[0]) z <= 1; end end else begin begin z <= z + 1; end y <= 1; end'), initzero=True)
add('systask', vtext(['input [3:0] d', 'output reg [3:0] z'], 'always @(posedge CLK) begin $display("x %d", d); z <= d; if (d == 3) $display("q"); else z <= z + 1; end'), initzero=True)

# --- functions and tasks
add('function', vtext(['input [3:0] a', 'input [3:0] b', 'output [7:0] z'], 'function [7:0] f;\ninput [3:0] x;\ninput [3:0] y;\nbegin f = x * y; if (x > y) f = f + 1; end endfunction\nassign z = f(a, b) + f(b, 3);'))
add('function_local', vtext(['input [7:0] a', 'output [3:0] z'], 'function [3:0] cnt;\ninput [7:0] x;\ninteger i;\nreg [3:0] s;\nbegin s = 0; for (i = 0; i < 8; i = i + 1) s = s + x[i]; cnt = s; end endfunction\nassign z = cnt(a) + cnt(a >> 4);'))
add('function_bit', vtext(['input [7:0] a', 'output z'], 'function p;\ninput [7:0] x;\np = ^x;\nendfunction\nassign z = p(a) & p(a << 1);'))
add('function_param', vtext(['input [W-1:0] a', 'output [W:0] z'], 'function [W:0] f;\ninput [W-1:0] x;\nf = x + W;\nendfunction\nassign z = f(a);', params='parameter W = 5'))
add('function_range', vtext(['input [7:0] a', 'output [7:0] z'], 'function [8:1] f;\ninput [8:1] x;\nf = {x[4:1], x[8:5]};\nendfunction\nassign z = f(a);'))
add('function_case', vtext(['input [3:0] a', 'output [6:0] z'], 'function [6:0] seg;\ninput [3:0] x;\ncase (x) 0: seg = 7\'h3f; 1: seg = 7\'h06; 4\'ha: seg = 7\'h77; default: seg = {3\'d0, x}; endcase\nendfunction\nassign z = seg(a);'))
add('function_nest', vtext(['input [3:0] a', 'output [7:0] z'], 'function [7:0] g;\ninput [3:0] x;\ng = x + 1;\nendfunction\nfunction [7:0] f;\ninput [3:0] x;\nf = g(x) * g(x + 1);\nendfunction\nassign z = f(g(a));'))
add('function_signed_in', vtext(['input signed [3:0] a', 'output signed [7:0] z'], 'function [7:0] f;\ninput signed [3:0] x;\nf = x * 2;\nendfunction\nassign z = f(a);'))

# --- hierarchy
SUB = 'module sub #(parameter W = 4, parameter I = 2)(input CLK, input RST, input [W-1:0] a, input en, output reg [W-1:0] q, output signed [W:0] y);\nalways @(posedge CLK) if (RST) q <= I; else if (en) q <= q + a;\nassign y = a - q;\nendmodule\n'
IO = ['input [3:0] a', 'input e', 'output [3:0] q', 'output signed [4:0] y']
add('inst_named', vtext(IO, 'sub u(.CLK(CLK), .RST(RST), .a(a), .en(e), .q(q), .y(y));', rest=SUB))
add('inst_pos', vtext(IO, 'sub u(CLK, RST, a, e, q, y);', rest=SUB))
add('inst_order', vtext(IO, 'sub u(.y(y), .q(q), .en(e & ~RST), .a(a ^ 4\'d3), .RST(RST), .CLK(CLK));', rest=SUB))
add('inst_before', SUB + vtext(IO, 'sub u(CLK, RST, a, e, q, y);'))
add('inst_param_named', vtext(IO, 'sub #(.I(9)) u(CLK, RST, a, e, q, y);', rest=SUB))
add('inst_param_pos', vtext(IO, 'sub #(4, 9) u(CLK, RST, a, e, q, y);', rest=SUB))
add('inst_param_two', vtext(['input [3:0] a', 'input e', 'output [11:0] q'], 'wire [7:0] p;\nwire [3:0] r;\nassign q = {p, r};\nsub #(.W(8), .I(200)) u(.CLK(CLK), .RST(RST), .a({a, a}), .en(e), .q(p));\nsub #(.I(1)) v(.CLK(CLK), .RST(RST), .a(a), .en(1\'b1), .q(r));', rest=SUB))
add('inst_open', vtext(['input [3:0] a', 'input e', 'output [3:0] q'], 'sub u(.CLK(CLK), .RST(RST), .a(a), .en(e), .q(q), .y());', rest=SUB))
add('inst_parampass', vtext(['input [W-1:0] a', 'input e', 'output [W-1:0] q', 'output signed [W:0] y'], 'sub #(.W(W), .I(W - 1)) u(CLK, RST, a, e, q, y);', params='parameter W = 5', rest=SUB))
add('inst_parampass_over', vtext(['input [W-1:0] a', 'input e', 'output [W-1:0] q', 'output signed [W:0] y'], 'sub #(.W(W), .I(W - 1)) u(CLK, RST, a, e, q, y);', params='parameter W = 5', rest=SUB), params={'W': 3}, rparams={'W': 3})
add('inst_deep', vtext(IO, 'mid #(.K(5)) u(CLK, RST, a, e, q, y);', rest=SUB + 'module mid #(parameter K = 0)(input C, input R, input [3:0] a, input en, output [3:0] q, output signed [4:0] y);\nwire [3:0] w; wire [4:0] v;\nsub #(4, K) s0(C, R, a, en, w, v);\nsub #(.I(K + 1)) s1(.CLK(C), .RST(R), .a(w), .en(~en), .q(q), .y(y));\nendmodule\n'))
add('inst_v95', vtext(['input [3:0] a', 'output [3:0] q'], 'old #(3) u(CLK, a, q);', rest='module old(c, i, o);\nparameter K = 1;\ninput c;\ninput [3:0] i;\noutput [3:0] o;\nreg [3:0] o;\nalways @(posedge c) o <= i + K;\nendmodule\n'))
# --- generate
add('gen_for', vtext(['input [7:0] a', 'output [7:0] z'], 'genvar i;\ngenerate for (i = 0; i < 8; i = i + 1) begin : g\nassign z[i] = a[7 - i];\nend endgenerate'))
add('gen_for_reg', vtext(['input [7:0] a', 'output [7:0] z'], 'genvar i;\ngenerate for (i = 0; i < 4; i = i + 1) begin : g\nreg [1:0] r;\nalways @(posedge CLK) if (RST) r <= i; else r <= r + a[i];\nassign z[2*i+1:2*i] = r;\nend endgenerate'))
add('gen_for_inst', vtext(['input [7:0] a', 'input [1:0] e', 'output [7:0] z'], 'genvar i;\ngenerate for (i = 0; i < 2; i = i + 1) begin : g\nwire [3:0] q;\nwire [4:0] v; sub #(.I(i * 3)) u(CLK, RST, a[i*4+3:i*4], e[i], q, v);\nassign z[i*4+3:i*4] = q;\nend endgenerate', rest=SUB))
add('gen_for_step', vtext(['input [7:0] a', 'output [7:0] z'], 'genvar i;\ngenerate for (i = 6; i >= 0; i = i - 2) begin : g\nassign z[i] = a[i + 1];\nassign z[i + 1] = a[i];\nend endgenerate'))
add('gen_scope', vtext(['input [7:0] a', 'output [7:0] z'], 'genvar i;\ngenerate for (i = 0; i < 3; i = i + 1) begin : g\nwire [7:0] w;\nassign w = a + i;\nend endgenerate\nassign z = g[0].w ^ g[2].w;'))
add('gen_scope_chain', vtext(['input [7:0] a', 'output [7:0] z'], 'genvar i;\ngenerate for (i = 0; i < 3; i = i + 1) begin : g\nwire [7:0] w;\nif (i == 0) begin : first assign w = a; end else begin : rest assign w = g[i-1].w * 3 + 1; end\nend endgenerate\nassign z = g[2].w;'))
for P in (0, 1, 2):
    add('gen_if_%d' % P, vtext(['input [7:0] a', 'output [7:0] z'], 'generate if (P == 1) begin : one\nassign z = a + 1;\nend else if (P == 2) begin : two\nassign z = ~a;\nend else begin : other\nassign z = a;\nend endgenerate', params='parameter P = 1'), params={'P': P}, rparams={'P': P})
    add('gen_if_noelse_%d' % P, vtext(['input [7:0] a', 'output [7:0] z'], 'reg [7:0] r;\nassign z = r;\ngenerate if (P == 1) begin : one\nalways @(posedge CLK) r <= a + 1;\nend endgenerate\ngenerate if (P != 1) begin\nwire [7:0] k = a ^ 3;\nalways @(posedge CLK) r <= k;\nend endgenerate', params='parameter P = 1'), params={'P': P}, rparams={'P': P}, warm=3)
    add('gen_if_inst_%d' % P, vtext(IO, 'generate if (P == 1) begin : one\nsub #(.I(1)) u(CLK, RST, a, e, q, y);\nend else begin : other\nsub2 u(CLK, RST, a, e, q, y);\nend endgenerate', params='parameter P = 1', rest=SUB + SUB.replace('sub', 'sub2').replace('q + a', 'q - a')), params={'P': P}, rparams={'P': P})
    add('gen_if_for_%d' % P, vtext(['input [3:0] a', 'output [3:0] z'], 'genvar i;\ngenerate if (P) begin : p\nfor (i = 0; i < 4; i = i + 1) begin : g\nif (i % 2 == P % 2) begin : ev assign z[i] = a[i]; end else begin : od assign z[i] = ~a[3 - i]; end\nend end else begin : n\nassign z = 5;\nend endgenerate', params='parameter P = 1'), params={'P': P}, rparams={'P': P})
add('gen_nested', vtext(['input [8:0] a', 'output [8:0] z'], 'genvar i, j;\ngenerate for (i = 0; i < 3; i = i + 1) begin : g\nfor (j = 0; j < 3; j = j + 1) begin : h\nassign z[i*3+j] = a[j*3+i];\nend end endgenerate'))
add('gen_mixed', vtext(['input [3:0] a', 'output [3:0] z', 'output reg [3:0] y'], 'generate\nif (1) begin : t\nassign z = a + 2;\nend\nif (0) begin : f\nassign z = a;\nend\nendgenerate\nalways @(posedge CLK) y <= z;'), warm=3)
add('gen_params', vtext(['input [3:0] a', 'output [3:0] z'], 'genvar i;\ngenerate for (i = 0; i < N; i = i + 1) begin : g\nlocalparam K = i * 2;\nwire [3:0] w;\nassign w = a >> K;\nassign z[i] = ^w;\nend endgenerate', params='parameter N = 4'))
add('delay', vtext(['input [3:0] d', 'output reg [3:0] z'], 'always @(posedge CLK) begin z <= #1 d + 1; end'), warm=3)
comb('sla', AB, 'output [7:0] z', 'a <<< 2')
comb('sla_s', SAB, 'output signed [9:0] z', 'a <<< 2')
add('casez_z', vtext(['input [3:0] d', 'output reg [2:0] z'], "always @* casez (d) 4'b1zzz: z = 3; 4'b01zz: z = 2; default: z = 0; endcase"))
add('always_ff', vtext(['input [3:0] d', 'output reg [3:0] z'], 'always_ff @(posedge CLK) if (RST) z <= 0; else z <= z + d;').replace('always_ff', 'always'))
add('block_locals', vtext(['input [3:0] d', 'output reg [3:0] z', 'output reg [3:0] y'], 'reg [3:0] t;\nalways @(posedge CLK) begin : b\nreg [3:0] t;\nif (RST) t = 0; else t = t + d;\nz <= t; end\nalways @(posedge CLK) begin : c\nreg [3:0] u;\ninteger i;\nu = d; for (i = 0; i < 2; i = i + 1) u = u ^ (u << 1);\nt <= u; y <= t; end'), warm=4)
add('block_locals_nested', vtext(['input [3:0] d', 'output reg [3:0] z'], 'always @* begin : b\nreg [3:0] t;\nt = d + 1;\nif (d[0]) begin : c\nreg [1:0] t;\nt = d; z = t; end else z = t; end'))
add('port_wire', vtext(['input wire [3:0] a', 'input wire signed [3:0] b', 'output wire signed [7:0] z', 'output wire y'], 'assign z = b + 8\'sd0;\nassign y = ^a;'))
add('port_reg_signed', 'module top(CLK, RST, a, z, y);\ninput CLK, RST;\ninput [3:0] a;\nwire signed [3:0] a;\noutput [7:0] z;\nreg signed [7:0] z;\noutput signed [7:0] y;\nreg [7:0] y;\nalways @(posedge CLK) if (RST) z <= 0; else z <= (z + a) >>> 1;\nalways @* y = z >>> 1;\nendmodule\n')
add('port_late', 'module top(CLK, RST, a, z);\nwire CLK;\ninput CLK;\ninput RST;\noutput [3:0] z;\ninput [3:0] a;\nwire [3:0] a;\nwire [3:0] z;\nassign z = a;\nendmodule\n')
add('initial_nb', vtext(['input d', 'output [3:0] z', 'output [3:0] y'], 'reg [3:0] r;\nreg [3:0] q;\ninitial begin r = 1; q = 2; r <= q; q <= r; end\nassign z = r;\nassign y = q;'))
add('mem2d', vtext(['input [7:0] d', 'input [1:0] i', 'input j', 'output [7:0] z'], 'reg [7:0] m [0:3][0:1];\nassign z = m[i][j];\nalways @(posedge CLK) m[i][j] <= d;'), initzero=True)
add('mem_bit', vtext(['input [7:0] d', 'input [1:0] i', 'output [3:0] z', 'output y'], 'reg [7:0] m [0:3];\nassign z = m[i][6:3];\nassign y = m[i][d[2:0]];\nalways @(posedge CLK) begin m[i][3:0] <= d; m[d[1:0]][7] <= d[7]; end'), initzero=True, reset='no')
add('signed_mem', vtext(['input signed [3:0] d', 'input [1:0] i', 'output signed [7:0] z'], 'reg signed [3:0] m [0:3];\nassign z = m[i];\nalways @(posedge CLK) m[i] <= d;'), initzero=True)
add('clog2', vtext(['input [7:0] a', 'output [7:0] z'], 'localparam L = $clog2(P);\nwire [L-1:0] w;\nassign w = a;\nassign z = w;', params='parameter P = 37'))
add('param_dep', vtext(['input [W-1:0] a', 'output [X-1:0] z'], 'assign z = a * Y;', params='parameter W = 4, parameter X = W + 3, parameter Y = X > 6 ? 3 : 5'), params={'W': 3}, rparams={'W': 3})
add('param_dep_d', vtext(['input [W-1:0] a', 'output [X-1:0] z'], 'assign z = a * Y;', params='parameter W = 4, parameter X = W + 3, parameter Y = X > 6 ? 3 : 5'))
add('localparam_order', vtext(['input [3:0] a', 'output reg [3:0] z'], 'localparam IDLE = 0, RUN = 1, DONE = 2;\nreg [1:0] st;\nalways @(posedge CLK) if (RST) begin st <= IDLE; z <= 0; end else case (st) IDLE: if (a[0]) st <= RUN; RUN: begin z <= z + a; if (z > 5) st <= DONE; end DONE: begin st <= IDLE; z <= 0; end endcase'))
add('fsm_onehot', vtext(['input [3:0] a', 'output [2:0] s'], 'reg [2:0] st, nx;\nassign s = st;\nalways @* begin nx = st; case (1) st[0]: nx = a[0] ? 3\'b010 : st; st[1]: nx = 3\'b100; st[2]: if (a[3]) nx = 3\'b001; endcase end\nalways @(posedge CLK) if (RST) st <= 1; else st <= nx;'))
add('hier_ref', vtext(['input [3:0] a', 'output [3:0] z'], 'wire [3:0] q; wire [4:0] y;\nsub u(CLK, RST, a, 1\'b1, q, y);\nassign z = u.q ^ 4\'d1;', rest=SUB))
add('gen_block_local', vtext(['input [7:0] a', 'output [7:0] z'], 'genvar i;\ngenerate for (i = 0; i < 2; i = i + 1) begin : g\nlocalparam K = 3 + i;\nfunction [3:0] f; input [3:0] x; f = x * K; endfunction\nassign z[i*4+3:i*4] = f(a[i*4+3:i*4]);\nend endgenerate'))
add('gen_for_nb', vtext(['input [3:0] a', 'output [3:0] z'], 'genvar i;\ngenerate for (i = 1; i < 4; i = i + 1) begin : g\nreg r;\nalways @(posedge CLK) begin if (RST) r <= 0; else if (a[i]) r <= a[i-1]; end\nassign z[i] = r;\nend endgenerate\nassign z[0] = a[0];'))
add('gen_no_kw', vtext(['input [3:0] a', 'output [3:0] z'], 'genvar i;\ngenerate\nfor (i = 0; i < 2; i = i + 1) begin : g\nassign z[i] = a[i];\nend\nfor (i = 2; i < 4; i = i + 1) begin : h\nassign z[i] = ~a[i];\nend\nendgenerate'))
add('gen_two_unnamed', vtext(['input [3:0] a', 'output [3:0] z'], 'generate if (P) begin\nassign z[1:0] = a[1:0];\nend endgenerate\ngenerate if (P == 0) begin\nassign z[1:0] = 0;\nend else begin\nassign z[3:2] = a[1:0];\nend endgenerate', params='parameter P = 1'))
add('comments', vtext(['input [3:0] a', 'output [3:0] z'], '// assign z = 0;\n/* assign z = 1; */ assign z = a /* + 1 */ ;'), cycles=1)
add('lit_x', vtext(['input [3:0] a', 'output reg [3:0] z'], "always @* casex (a) 4'bxx10, 4'b?001: z = 4'hA; 4'HF: z = 4'B01_10; 4'o1?: z = 4'D9; default: z = 'o7; endcase"), cycles=1)
add('long_lit', vtext(['input [63:0] a', 'output [63:0] z', 'output [99:0] y'], "assign z = a ^ 64'hdead_beef_0123_4567;\nassign y = {a, 36'd68719476735} + 100'd1;"), cycles=1)
add('adder_tree', vtext(['input [3:0] a', 'input [3:0] b', 'output [4:0] s'], 'wire [4:0] c;\nassign c[0] = 0;\ngenvar i;\ngenerate for (i = 0; i < 4; i = i + 1) begin : fa\nassign s[i] = a[i] ^ b[i] ^ c[i];\nassign c[i+1] = (a[i] & b[i]) | (c[i] & (a[i] ^ b[i]));\nend endgenerate\nassign s[4] = c[4];'), cycles=1)
add('idx_plus_part', vtext(['input [7:0] a', 'input [2:0] b', 'output [3:0] z'], 'assign z = a[b +: 4];'), cycles=1)
add('idx_minus_part', vtext(['input [7:0] a', 'output [3:0] z'], 'assign z = a[7 -: 4];'), cycles=1)
add('idx_left_part', vtext(['input [3:0] d', 'output reg [7:0] z'], 'always @(posedge CLK) begin if (RST) z <= 0; else z[4 +: 4] <= d; end'))
add('idx_left', vtext(['input [3:0] d', 'input [1:0] p', 'output reg [7:0] z'], 'always @(posedge CLK) begin if (RST) z <= 0; else z[p +: 4] <= d; end'))
add('idx_left_down', vtext(['input [3:0] d', 'input [1:0] p', 'output reg [7:0] z'], 'always @(posedge CLK) begin if (RST) z <= 0; else z[p + 4 -: 3] <= d; end'))
add('idx_asc', vtext(['input [0:7] a', 'input [1:0] p', 'output [2:0] z'], 'assign z = a[p +: 3] ^ a[7 -: 3];'), cycles=1)
add('idx_mem', vtext(['input [7:0] d', 'input [1:0] i', 'input [1:0] p', 'output [3:0] z'], 'reg [7:0] m [0:3];\nassign z = m[i][p +: 4];\nalways @(posedge CLK) begin m[i][p + 3 -: 4] <= d; end'), initzero=True, reset='no')
add('idx_expr', vtext(['input [31:0] a', 'input [1:0] p', 'output [7:0] z', 'output [15:0] y'], 'assign z = a[p * 8 +: 8];\nassign y = {a[8 * p +: W], a[31 -: W]};', params='parameter W = 8'), cycles=1)
add('idx_gen', vtext(['input [15:0] a', 'output [15:0] z'], 'genvar i;\ngenerate for (i = 0; i < 4; i = i + 1) begin : g\nassign z[i * 4 +: 4] = a[15 - i * 4 -: 4];\nend endgenerate'), cycles=1)
add('idx_plain', vtext(['input [15:0] a', 'output [3:0] z', 'output [3:0] y'], 'localparam K = 3;\nassign z = a[K + 3:K];\nassign y = a[7:7 - 3];'), cycles=1)
add('gen_scope_reg', vtext(['input [7:0] a', 'output reg [7:0] z'], 'genvar i;\ngenerate for (i = 0; i < 3; i = i + 1) begin : g\nreg [7:0] w;\nalways @(posedge CLK) if (RST) w <= i; else w <= w + a;\nend endgenerate\nalways @(posedge CLK) if (RST) z <= 0; else z <= g[1].w ^ g[2].w;'))
add('signed_ops', vtext(['input signed [3:0] a', 'input signed [3:0] b', 'output reg signed [7:0] z'], 'always @(posedge CLK) if (RST) z <= -1; else if (a < b) z <= z + a; else if (a == -1) z <= a * b; else z <= z >>> 1;'))
add('dff_chain', vtext(['input d', 'output reg q'], 'reg a, b;\nalways @(posedge CLK) begin a <= d; b <= a; q <= b; end'), warm=5)
add('fifo', vtext(['input [3:0] d', 'input push', 'input pop', 'output [3:0] q', 'output empty', 'output full'], 'reg [3:0] mem [0:3];\nreg [2:0] wp, rp;\nassign empty = wp == rp;\nassign full = wp[1:0] == rp[1:0] && wp[2] != rp[2];\nassign q = mem[rp[1:0]];\n'
    'always @(posedge CLK) if (RST) begin wp <= 0; rp <= 0; end else begin if (push && !full) begin mem[wp[1:0]] <= d; wp <= wp + 1; end if (pop && !empty) rp <= rp + 1; end'), cycles=6, initzero=True)


# --- texts emitted by the library itself (threads, RAMs, streams, FSMs) read back
def rt(name, src, tier='quick', **kw):
    from checks.equiv import api

    def text():
        return api(src)().to_verilog()
    R.add('rt_' + name, equiv(lambda: imp(text())(), text, top='top', rtop='top', **kw), tier)


H = "m = Module('top')\nCLK = m.Input('CLK')\nRST = m.Input('RST')\n"
rt('fsm', H + "a = m.Input('a', 4)\nz = m.OutputReg('z', 4, initval=0)\nf = FSM(m, 'f', CLK, RST)\nf.If(a > 3).goto_next()\nfor i in range(3):\n    f(z(z + a))\n    f.If(a[i]).goto_next()\nf.If(Not(a)).goto_init()\nf.make_always()\n", cycles=6)
rt('seq', H + "a = m.Input('a', 4)\nz = m.OutputReg('z', 4, initval=3)\ns = Seq(m, 's', CLK, RST)\ns.If(a > 3).Delay(2)(z(a))\ns.If(s.Prev(a, 2) == 1)(z.inc())\n", cycles=5)
rt('thread', H + "a = m.Input('a', 8)\nz = m.OutputReg('z', 8, initval=0)\ndef f():\n    s = 0\n    for i in range(3):\n        if a > 7:\n            s += a\n        else:\n            s -= i\n    z.value = s\nth = vthread.Thread(m, 'th', CLK, RST, f)\nth.start()\n", cycles=10)
rt('thread_ram', H + "a = m.Input('a', 8)\nz = m.OutputReg('z', 8, initval=0)\nram = vthread.RAM(m, 'ram', CLK, RST, 8, 2)\ndef f():\n    for i in range(2):\n        ram.write(i, a + i)\n    z.value = ram.read(1)\nth = vthread.Thread(m, 'th', CLK, RST, f)\nth.start()\n", cycles=12, initzero=True, reset='no')
rt('stream', H + "x = m.Input('x', 8)\ny = m.Input('y', 8)\nz = m.Output('z', 8)\ns = vthread.Stream(m, 's', CLK, RST)\na = s.source('a')\nb = s.source('b')\ns.sink(a * 3 + b, 'c')\nram = [vthread.RAM(m, 'r%d' % i, CLK, RST, 32, 2) for i in range(3)]\ndef f():\n    s.set_source('a', ram[0], 0, 2)\n    s.set_source('b', ram[1], 0, 2)\n    s.set_sink('c', ram[2], 0, 2)\n    s.run()\n    s.join()\nth = vthread.Thread(m, 'th', CLK, RST, f)\nth.start()\nz.assign(ram[2].interfaces[0].wdata)\n", cycles=8, initzero=True, reset='no')
rt('hier', H + "def sub(n, k):\n    s = Module(n)\n    c = s.Input('CLK')\n    r = s.Input('RST')\n    a = s.Input('a', 4)\n    q = s.OutputReg('q', 4, initval=k)\n    sq = Seq(s, 'sq', c, r)\n    sq(q(q + a))\n    return s\na = m.Input('a', 4)\nz = m.Output('z', 4)\ny = m.Output('y', 4)\nm.Instance(sub('s', 1), 'u', ports=(CLK, RST, a, z))\nm.Instance(sub('s', 2), 'v', ports=dict(CLK=CLK, RST=RST, a=a, q=y))\n")
rt('axi', H + "z = m.OutputReg('z', 32, initval=0)\nd = m.Input('d', 32)\nram = vthread.RAM(m, 'ram', CLK, RST, 32, 4)\naxi = vthread.AXIM(m, 'axi', CLK, RST, 32)\ndef f():\n    axi.dma_read(ram, 0, 64, 4)\n    z.value = ram.read(1)\nth = vthread.Thread(m, 'th', CLK, RST, f)\nth.start()\n", cycles=8, initzero=True, reset='no')

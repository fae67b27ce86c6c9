"""run a veriloggen module in Icarus Verilog on a list of input rows"""
import os
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
_d = tempfile.TemporaryDirectory()
os.chdir(_d.name)


def sim(m, rows, outs, top=None, params=''):
    """rows: [{input: value}] (one per clock); -> [{out: int or None}] sampled before each clock edge, plus one row after the last; and the display lines"""
    text = m if isinstance(m, str) else m.to_verilog()
    top = top or m.name
    names = sorted({k for r in rows for k in r})
    tb = ['module tb;', 'reg CLK = 0;']
    tb += ['reg [63:0] %s = 0;' % n for n in names]
    tb += ['%s %s dut(.CLK(CLK)%s);' % (top, params, ''.join(', .%s(%s)' % (n, n) for n in names)), 'initial begin']
    show = '$write("@R"); ' + ' '.join('$write(" %%b", dut.%s);' % o for o in outs) + ' $write("\\n");'
    cur = {}
    for r in rows:
        for k, v in r.items():
            if cur.get(k) != v:
                tb.append("%s = 64'h%x;" % (k, v & (2 ** 64 - 1)))
                cur[k] = v
        tb.append('#4; %s CLK = 1; #5 CLK = 0; #1;' % show)
    tb += ['#4; %s $finish;' % show, 'end', 'endmodule']
    with open('tb.v', 'w') as f:
        f.write('\n'.join(tb) + '\n')
    with open('dut.v', 'w') as f:
        f.write(text)
    subprocess.run(['iverilog', '-g2005', '-o', 'a.out', '-s', 'tb', 'tb.v', 'dut.v'], check=True)
    o = subprocess.run(['vvp', '-N', 'a.out'], check=True, capture_output=True, text=True).stdout
    res, disp = [], []
    for l in o.splitlines():
        if l.startswith('@R'):
            res.append({n: (int(b, 2) if set(b) <= set('01') else None) for n, b in zip(outs, l.split()[1:])})
        else:
            disp.append(l)
    return res, disp

"""Concrete execution of the generated Verilog with Icarus Verilog, on the
stimulus of a counterexample (or of a random validation trace)."""
import os
import re
import shutil
import subprocess
import tempfile


class IvlError(Exception):
    pass


def _hier(name):
    return 'dut.' + name


def run(text, top, steps, ports, observe, deposits=(), params=None, clocks=('CLK',), extra_files=None,
        keep=None, timeout=120):
    """steps: list of (inputs dict name->int, clk or None); ports: {name: width} of driven inputs
    observe: list of (label, hierarchical name, width); deposits: list of (hier name, width, value)
    -> (rows, display_lines) rows: one list of ints (None = has x/z) per step."""
    d = tempfile.mkdtemp(prefix='vivl')
    try:
        tb = []
        tb.append('`timescale 1ns/1ps')
        tb.append('module vtb_top;')
        for c in clocks:
            tb.append('reg \\%s ;' % c)
        for n, w in ports.items():
            tb.append('reg [%d:0] \\%s ;' % (w - 1, n))
        conns = ['.\\%s (\\%s )' % (n, n) for n in list(clocks) + list(ports)]
        pp = ''
        if params:
            pp = '#(%s) ' % ', '.join('.%s(%d)' % kv for kv in params.items())
        tb.append('%s %sdut(%s);' % (top, pp, ', '.join(conns)))
        tb.append('initial begin')
        for c in clocks:
            tb.append('  \\%s = 0;' % c)
        prev = {}
        for i, (inp, clk) in enumerate(steps):
            for n, v in inp.items():
                if prev.get(n) != v:
                    tb.append("  \\%s = %d'h%x;" % (n, ports[n], v))
                    prev[n] = v
            if i == 0:
                tb.append('  #1;')
                for n, w, v in deposits:
                    tb.append("  %s = %d'h%x;" % (_hier(n), w, v))
            tb.append('  #4; $write("@@R");')
            for k in range(0, len(observe), 40):
                o = observe[k:k + 40]
                tb.append('  $write("%s", %s);' % (' %b' * len(o), ', '.join(_hier(x[1]) for x in o)))
            tb.append('  $write("\\n");')
            if clk is not None:
                tb.append('  \\%s = 1; #1; #4;' % clk)
                tb.append('  \\%s = 0; #1;' % clk)
        tb.append('  $finish;')
        tb.append('end')
        tb.append('endmodule')
        # NOTE: the input changes for the next step happen after the posedge
        with open(os.path.join(d, 'dut.v'), 'w') as f:
            f.write(text)
        with open(os.path.join(d, 'tb.v'), 'w') as f:
            f.write('\n'.join(tb) + '\n')
        for n, s in (extra_files or {}).items():
            with open(os.path.join(d, n), 'w') as f:
                f.write(s)
        if keep:
            os.makedirs(keep, exist_ok=True)
            shutil.copy(os.path.join(d, 'dut.v'), keep)
            shutil.copy(os.path.join(d, 'tb.v'), keep)
        p = subprocess.run(['iverilog', '-g2005', '-o', 'a.out', '-s', 'vtb_top', 'tb.v', 'dut.v'], cwd=d,
                           capture_output=True, text=True, timeout=timeout)
        if p.returncode != 0:
            raise IvlError('iverilog: ' + p.stderr[:2000])
        p = subprocess.run(['vvp', '-N', 'a.out'], cwd=d, capture_output=True, text=True, timeout=timeout)
        rows, disp = [], []
        for l in p.stdout.splitlines():
            m = re.search(r'@@R(.*)$', l)
            if m:
                r = []
                for x in m.group(1).split():
                    r.append(int(x, 2) if re.match('^[01]+$', x) else None)
                rows.append(r)
                if m.start() > 0:
                    disp.append((len(rows), l[:m.start()]))
            else:
                disp.append((len(rows), l))
        if len(rows) != len(steps):
            raise IvlError('vvp produced %d rows of %d: %s' % (len(rows), len(steps), (p.stdout[-500:] + p.stderr[-500:])))
        return rows, disp
    finally:
        shutil.rmtree(d, ignore_errors=True)


def legal(text):
    """does Icarus accept the text?  -> (ok, message)"""
    d = tempfile.mkdtemp(prefix='vivl')
    try:
        with open(os.path.join(d, 'dut.v'), 'w') as f:
            f.write(text)
        p = subprocess.run(['iverilog', '-g2005', '-t', 'null', 'dut.v'], cwd=d, capture_output=True, text=True,
                           timeout=120)
        return p.returncode == 0, p.stderr[:2000]
    finally:
        shutil.rmtree(d, ignore_errors=True)

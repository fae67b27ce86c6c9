#!/bin/bash
# nothing to compile: verifies that the tools the checks need are present
set -e
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo:$PWD"
/opt/veriftools/pyvenv/bin/python - <<'P'
import sys
sys.path.append('/opt/venv/lib/python3.12/site-packages')
import z3, veriloggen, pyverilog
print('z3', z3.get_version_string(), 'veriloggen', veriloggen.__file__)
P
command -v iverilog
mkdir -p evidence

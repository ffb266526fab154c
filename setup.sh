#!/bin/bash
# nothing to build: the verifier and the harness are Python; check the two interpreters are there
set -e
/opt/veriftools/pyvenv/bin/python -c "import z3, cvc5"
/opt/venv/bin/python -c "import numpy, pandas, scipy"
mkdir -p "$(dirname "$0")/evidence"

#!/bin/bash
# nothing to build: checks that the interpreters and the solver needed by the checks are there
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
python3-vt -c "import z3; print('z3', z3.get_version_string())" || exit 1
/opt/pypyvenv/bin/python -c "import numpy, pandas, openpyxl; print('replay interpreter ok')" || exit 1

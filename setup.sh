#!/bin/bash
# Nothing to build: the verifier is Python. Checks that the interpreter, the solvers and psion can be loaded.
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B -c "
import sys; sys.path.insert(0, '.')
from pv import env
import z3, cvc5, psion.oauth2.providers, psion.jose, psion.oidc.claims
print('z3', z3.get_version_string(), 'psion from', psion.__file__)"

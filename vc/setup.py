#!/usr/bin/env python3
"""Nothing is built ahead: every check compiles what it needs from /repo.  This verifies that the tools are present."""
import subprocess, sys
for c in (['clang++', '--version'], ['opt', '--version'], ['cvc5', '--version'], ['c++filt', '--version']): subprocess.run(c, check=True, capture_output=True)
import z3
print('tools present, z3', z3.get_version_string())

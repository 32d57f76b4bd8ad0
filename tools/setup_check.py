#!/usr/bin/env python3
"""setup_cmd: nothing to build; verify that the interpreter, z3 and the repo's dependencies are there."""
import subprocess
import sys
r = subprocess.run(['/opt/veriftools/pyvenv/bin/python3', '-c',
                    "import sys; sys.path.append('/opt/venv/lib/python3.12/site-packages');"
                    "import z3, cryptography, gmssl, phe, mysql.connector, tornado, yaml; print('ok', z3.get_version_string())"])
sys.exit(r.returncode)

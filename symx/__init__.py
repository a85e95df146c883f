"""Symbolic execution of real Python code by operator overloading, decided by SMT."""
import os
import sys

_Z3_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _Z3_SITE not in sys.path:
    # appended: everything except the solvers resolves to the package's own venv
    sys.path.append(_Z3_SITE)
sys.dont_write_bytecode = True

"""symx: solver-backed symbolic execution of the real recap sources (see DESIGN.md)."""

import sys as _sys

# z3 lives in the verification tools' own virtual environment (same CPython
# 3.12); only z3 is taken from it, so the code under test keeps resolving its
# dependencies from /opt/venv
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if "z3" not in _sys.modules:
    _sys.path.append(_VT)
    import z3 as _z3  # noqa: F401

    _sys.path.remove(_VT)

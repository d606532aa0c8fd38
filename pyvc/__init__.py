"""pyvc: a contract verifier for the Python in /repo (see DESIGN.md)."""
import sys as _sys
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in _sys.path:
    _sys.path.append(_VT)   # z3/cvc5 bindings; last, so that the repository's own packages win

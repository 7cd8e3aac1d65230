"""symx: symbolic execution of the real cfdtools source with z3 (see DESIGN.md)."""
import sys

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)  # z3 lives there; appended last so the repo's own packages win

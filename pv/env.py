"""Process set-up shared by everything: the real psion from /repo/src, and z3/cvc5."""
import os, sys
REPO = os.environ.get("PV_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

def setup():
    sys.dont_write_bytecode = True
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    if VT not in sys.path:
        sys.path.append(VT)
    import warnings
    warnings.simplefilter("ignore")
setup()

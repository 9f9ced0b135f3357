"""pyvc: a small deductive verifier (symbolic VC generator) for the Python of /repo."""
import os
import sys

REPO = os.environ.get('GEMPAKIO_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
if SRC not in sys.path:
    sys.path.insert(0, SRC)
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
sys.dont_write_bytecode = True

import sys
_V='/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _V not in sys.path: sys.path.append(_V)

"""import order: the repository's own numpy first, then z3 from the tools venv"""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
def setup():
    import numpy
    import pyarrow
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)
    if HERE not in sys.path:
        sys.path.insert(0, HERE)

import glob
import importlib
import os

def load_all():
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "h_*.py"))):
        importlib.import_module("harnesses." + os.path.basename(f)[:-3])

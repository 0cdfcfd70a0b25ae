"""makes the importable modules of the package available (its top level does not import as a whole)"""
import importlib
import os
import sys
import types
sys.dont_write_bytecode = True
ROOT = os.environ.get("SEED_REPO", "/repo")
os.chdir(ROOT + "/test")
sys.path.insert(0, ROOT)
importlib.import_module("src")
_p = types.ModuleType("src.DLMS_SPODES")
_p.__path__ = [ROOT + "/src/DLMS_SPODES"]
sys.modules["src.DLMS_SPODES"] = _p


def mod(name):
    return importlib.import_module("src.DLMS_SPODES." + name)


def refused(fn, *exc):
    try:
        fn()
    except exc or (ValueError,):
        return True
    return False

import importlib
import os


def load(prop):
    importlib.import_module("kcv.props." + prop.lower())


def all_ids():
    return sorted(f[:-3].upper() for f in os.listdir(os.path.dirname(__file__))
                  if f.startswith("c") and f.endswith(".py"))

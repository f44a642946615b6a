import importlib

MODULES = {}

def load(prop):
  from props import index
  for m in index.MODULES[prop]: importlib.import_module("props." + m)

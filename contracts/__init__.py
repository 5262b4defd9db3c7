import importlib
import os
for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if f.startswith("p_") and f.endswith(".py"):
        importlib.import_module("contracts." + f[:-3])

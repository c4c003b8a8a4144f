import importlib
import os


def ids():
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props')
    return sorted(f[:-3].upper() for f in os.listdir(d)
                  if f.endswith('.py') and f[0] == 'c' and f[1:3].isdigit())


def get(pid):
    mod = importlib.import_module('sim.props.' + pid.lower())
    return mod.PROP()

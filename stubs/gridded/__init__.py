"""Stand-in for the third-party package ``gridded`` (not installed in this sandbox).

``import gnome`` needs it.  Only what the simulated scenarios reach is functional
(the time axis and the small array helpers); gridded fields raise when used.
"""
__version__ = '0.7.5'
from . import utilities, time, grids, depth          # noqa
from .variable import Variable, VectorVariable       # noqa
from .time import Time                               # noqa

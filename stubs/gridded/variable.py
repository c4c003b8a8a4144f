from .grids import _NoGrid


class Variable(_NoGrid):
    _default_component_types = {'time': None, 'grid': None, 'depth': None}
    default_names = []
    cf_names = []


class VectorVariable(_NoGrid):
    _default_component_types = {'time': None, 'grid': None, 'depth': None, 'variable': Variable}
    default_names = {}
    cf_names = {}

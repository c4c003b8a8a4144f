from .grids import _NoGrid


class DepthBase(_NoGrid):
    _default_component_types = {'time': None, 'grid': None, 'variable': None}


class L_Depth(DepthBase):
    pass


class S_Depth(DepthBase):
    pass


class ROMS_Depth(S_Depth):
    pass


class FVCOM_Depth(S_Depth):
    pass


class Depth(object):
    pass

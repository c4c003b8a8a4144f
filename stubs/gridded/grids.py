class _NoGrid(object):
    def __init__(self, *args, **kwargs):
        raise NotImplementedError('gridded fields are outside the simulation')

    @classmethod
    def from_netCDF(cls, *args, **kwargs):
        raise NotImplementedError('gridded fields are outside the simulation')


class Grid_U(_NoGrid):
    pass


class Grid_S(_NoGrid):
    pass


class Grid_R(_NoGrid):
    pass


class Grid(object):
    @staticmethod
    def from_netCDF(*args, **kwargs):
        raise NotImplementedError('gridded fields are outside the simulation')

    @staticmethod
    def _get_grid_type(*args, **kwargs):
        raise NotImplementedError('gridded fields are outside the simulation')

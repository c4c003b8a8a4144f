"""Functional re-implementation of the time axis of ``gridded`` 0.7."""
import datetime as _dt
import numpy as np


class Time(object):
    _const_time = None

    def __init__(self, data=None, filename=None, varname=None, tz_offset=None,
                 tz_offset_name='', origin=None, displacement=_dt.timedelta(0),
                 *args, **kwargs):
        if isinstance(data, Time):
            data = data.data
        if data is None:
            data = [_dt.datetime(2000, 1, 1)]
        self._data = np.array([self._plain(d) for d in data], dtype=object)
        if origin is not None:
            diff = self._data[0] - origin
            self._data = self._data - diff
        self._data = self._data + displacement
        self.displacement = displacement
        self.filename = filename
        self.varname = varname
        self.tz_offset = tz_offset
        self.tz_offset_name = tz_offset_name
        if any(b < a for a, b in zip(self._data, self._data[1:])):
            raise ValueError('Time sequence is not ascending')
        super(Time, self).__init__(*args, **kwargs)

    @staticmethod
    def _plain(d):
        if isinstance(d, np.datetime64):
            return d.astype('datetime64[us]').astype(object)
        return d

    @classmethod
    def constant_time(cls):
        if cls._const_time is None:
            cls._const_time = cls(np.array([_dt.datetime(2000, 1, 1)]))
        return cls._const_time

    @property
    def data(self):
        return self._data

    @data.setter
    def data(self, data):
        self._data = np.array([self._plain(d) for d in data], dtype=object)

    def __len__(self):
        return len(self._data)

    def __iter__(self):
        return iter(self._data)

    def __eq__(self, o):
        return isinstance(o, Time) and list(self._data) == list(o._data)

    __hash__ = None

    @property
    def info(self):
        return 'time axis, %d values' % len(self)

    @property
    def min_time(self):
        return self._data[0]

    @property
    def max_time(self):
        return self._data[-1]

    def get_time_array(self):
        return self._data.copy()

    def time_in_bounds(self, time):
        return not (time < self.min_time or time > self.max_time)

    def valid_time(self, time):
        if not self.time_in_bounds(time):
            raise ValueError('time specified (%s) is not within the bounds of the time (%s to %s)'
                             % (time, self.min_time, self.max_time))

    def index_of(self, time, extrapolate=False):
        if not (extrapolate or len(self) == 1):
            self.valid_time(time)
        return int(np.searchsorted(self._data, time))

    def interp_alpha(self, time, extrapolate=False):
        if not (extrapolate or len(self) == 1):
            self.valid_time(time)
        i0 = self.index_of(time, extrapolate)
        if i0 > len(self._data) - 1:
            return 1
        if i0 == 0:
            return 0
        t0, t1 = self._data[i0 - 1], self._data[i0]
        return (time - t0).total_seconds() / (t1 - t0).total_seconds()

"""Stand-in for rdtools/data/temperature.hdf5, which the pinned commit does not ship.

`h5py.File` is wrapped so that opening a path that ends in temperature.hdf5 yields a small
in-memory file of the same layout (groups temperature/day and temperature/night of shape
(longitudes, latitudes, 12)).  Nothing is written to disk.
"""
import io

import numpy as np

LONS, LATS = 720, 360     # pixels of half a degree


def grids():
    lon = np.arange(LONS)[:, None, None]
    lat = np.arange(LATS)[None, :, None]
    mon = np.arange(12)[None, None, :]
    # another value in every neighbouring pixel and month, spread over a realistic range
    base = 20 - 0.09 * np.abs(lat - LATS / 2) + 0.0013 * lon + 0.031 * ((7 * lon + 3 * lat) % 11)
    season = 9 * np.cos(2 * np.pi * (mon - 6.3) / 12) * np.sign(LATS / 2 - lat - 0.5)
    day = (base + season + 6 + 0.17 * ((5 * lon + lat + 3 * mon) % 13)).astype('float32')
    night = (base + season - 6 - 0.11 * ((lon + 2 * lat + 7 * mon) % 9)).astype('float32')
    day[100:130, 50:80] = night[100:130, 50:80] = np.nan     # 'ocean' around 58 N 122 W
    day[300:330, 20:50, 10:] = day[300:330, 20:50, :2] = np.nan     # no winter data around 73 N 22 W
    night[300:330, 20:50, 5:8] = np.nan
    return day, night


def _bytes():
    import h5py
    buf = io.BytesIO()
    day, night = grids()
    with h5py.File(buf, 'w') as f:
        g = f.create_group('temperature')
        g.create_dataset('day', data=day)
        g.create_dataset('night', data=night)
    return buf.getvalue()


def install():
    import h5py
    if getattr(h5py.File, '_verif', False):
        return
    raw = _bytes()
    real = h5py.File

    class File(real):
        _verif = True

        def __init__(self, name, *a, **k):
            if isinstance(name, (str, bytes)) or hasattr(name, '__fspath__'):
                import os
                p = os.fsdecode(os.fspath(name))
                if p.endswith('temperature.hdf5'):
                    name = io.BytesIO(raw)
            real.__init__(self, name, *a, **k)

    h5py.File = File

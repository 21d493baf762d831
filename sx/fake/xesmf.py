"""Stand-in for xesmf in replays: a deterministic interpolation (inverse distance
weights over all source points), which like xesmf keeps its weights in a file and
reuses an existing weight file when asked to."""
import os
import numpy as np

__version__ = 'stand-in'


class Regridder:
    def __init__(self, ds_in, ds_out, method, filename=None, reuse_weights=False, weights=None,
                 periodic=False, **kw):
        ilon, ilat = (np.asarray(ds_in[k], float) for k in ('lon', 'lat'))
        olon, olat = (np.asarray(ds_out[k], float) for k in ('lon', 'lat'))
        for a, b in ((ilon, ilat), (olon, olat)):
            if a.ndim != 2 or a.shape != b.shape:
                raise ValueError('lon and lat must be 2-d arrays of one shape')
        self.method = method
        self.shape_in, self.shape_out = ilon.shape, olon.shape
        self.filename = filename if filename is not None else '%s_%dx%d_%dx%d.nc' % (
            (method,) + self.shape_in + self.shape_out)
        if reuse_weights and os.path.exists(self.filename):
            with open(self.filename, 'rb') as f:
                self.w = np.load(f)
            if self.w.shape != (olon.size, ilon.size):
                raise ValueError('weights do not match the grids')
            return
        d2 = (olon.reshape(-1, 1) - ilon.reshape(1, -1)) ** 2 + (olat.reshape(-1, 1) - ilat.reshape(1, -1)) ** 2
        w = 1. / (d2 + 1.e-3 + (0.1 if periodic else 0.) + 0.01 * (len(method) % 5))
        self.w = w / w.sum(1, keepdims=True)
        with open(self.filename, 'wb') as f:
            np.save(f, self.w)

    def __call__(self, indata, **kw):
        a = np.asarray(indata, float)
        if a.shape[-2:] != self.shape_in:
            raise ValueError('The horizontal shape of input data is %r, different from that of the '
                             'regridder %r!' % (a.shape, self.shape_in))
        return (a.reshape(a.shape[:-2] + (-1,)) @ self.w.T).reshape(a.shape[:-2] + self.shape_out)

"""The product writers run on a model of the netCDF library: a data set is a table of declared dimensions and
variables; an assignment var[record, ranges] = values is one entry of a ghost log.  (Assumed of the library: an
assignment stores the values at exactly those places, packed with the variable's own scale_factor and add_offset,
rounded to the nearest step, and reading unpacks them; other places keep the fill value.)"""
from .base import *
from pyvc.ext import Ext, Text, log, logged
from pyvc.interp import Native
from fractions import Fraction
import numpy as np
import netCDF4

DT = {np.float64: 'f8', np.int8: 'i1', np.uint8: 'u1', np.int16: 'i2', np.uint16: 'u2', np.int32: 'i4',
      np.uint32: 'u4', np.float32: 'f4', np.int64: 'i8', np.uint64: 'u8'}


class NcDim(Ext):
    def __init__(self, name, size):
        self.name, self.size = name, size

    def attr(self, I, n):
        if n == 'name':
            return self.name
        if n == 'size':
            return self.size
        raise Unsupported('dimension.%s' % n)


class NcVar(Ext):
    def __init__(self, ds, name, dtype, dims, props):
        self.ds, self.name, self.dtype, self.dims, self.props, self.attrs = ds, name, dtype, dims, props, {}

    def __repr__(self):
        return '<variable %s>' % self.name

    def sizes(self, I):
        return tuple(self.ds.records(I) if self.ds.dims[d].size is None else self.ds.dims[d].size for d in self.dims)

    def attr(self, I, n):
        if n == 'name':
            return self.name
        if n == 'shape':
            return self.sizes(I)
        if n == 'ndim':
            return len(self.dims)
        if n == 'dimensions':
            return tuple(self.dims)
        if n == 'setncattr':
            return Native(lambda k, v: self.attrs.__setitem__(k, v), n)
        if n == 'setncatts':
            return Native(lambda d: self.attrs.update(I.E.heap[d.heapid] if isinstance(d, SDict) else d), n)
        raise Unsupported('variable.%s' % n)

    def setattr(self, I, n, v):
        self.attrs[n] = v

    def setitem(self, I, ix, v):
        ix = ix if isinstance(ix, tuple) else (ix,)
        if any(i is Ellipsis for i in ix):
            k = ix.index(Ellipsis)
            ix = ix[:k] + (slice(None),) * (len(self.dims) - len(ix) + 1) + ix[k + 1:]
        ix = ix + (slice(None),) * (len(self.dims) - len(ix))
        if len(ix) != len(self.dims) or isinstance(ix[0], slice):
            raise Unsupported('variable[%r]' % (ix,))
        ext = []
        for i, n in zip(ix[1:], self.sizes(I)[1:]):
            if not isinstance(i, slice):
                raise Unsupported('variable[%r]' % (ix,))
            if i.step not in (None, 1) or not (i.start is None or tm.as_const(tm.t(i.start)) == 0):
                raise Unsupported('variable[%r]' % (ix,))
            ext.append(n if i.stop is None else i.stop)
        log(I.E, ('store', self.name, ix[0], tuple(ext), v))


class NcData(Ext):
    def __init__(self, E, path, mode):
        self.E, self.path, self.mode = E, path, mode
        self.dims, self.vars, self.attrs = {}, {}, {}

    def records(self, I):
        return tm.var('nc.records', 'Int')

    def attr(self, I, n):
        if n == 'createDimension':
            def cd(name, size=None):
                if name in self.dims:
                    raise PyRaise(RuntimeError, 'dimension exists')
                self.dims[name] = NcDim(name, size)
                return self.dims[name]
            return Native(cd, n)
        if n == 'createVariable':
            def cv(name, dtype, dimensions=(), **props):
                if name in self.vars:
                    raise PyRaise(RuntimeError, 'variable exists')
                self.vars[name] = NcVar(self, name, dtype, tuple(I.concrete_seq(dimensions)) if not isinstance(dimensions, tuple) else dimensions, props)
                return self.vars[name]
            return Native(cv, n)
        if n in ('close', 'sync'):
            return Native(lambda: log(self.E, (n,)), n)
        if n == 'setncattr':
            return Native(lambda k, v: self.attrs.__setitem__(k, v), n)
        if n == 'variables':
            return dict(self.vars)
        raise Unsupported('dataset.%s' % n)

    def setattr(self, I, n, v):
        self.attrs[n] = v


def use(E, I):
    """-> list of opened data sets"""
    import os
    made = []

    def dataset(I, args, kw):
        d = NcData(E, args[0], args[1] if len(args) > 1 else kw.get('mode', 'r'))
        made.append(d)
        return d
    E.contracts[netCDF4.Dataset] = dataset
    E.contracts[os.makedirs] = lambda I, a, k: None
    return made


def writer(E, I, cls, c):
    """the writer, declared and opened, before its record number `nc.index`"""
    made = use(E, I)
    w = I.call(cls, (), {'chd': c.chd, 'cnf': c.cnf, 'cst': c.cst, 'filename': '/out/product.nc'})
    I.call(method(I, w, 'open'), ())
    if len(made) != 1:
        raise Unsupported('%d data sets' % len(made))
    return w, made[0]


VECTORS = 'beam_angles_surf look_angles_surf beam_angles_start_stop look_angles_start_stop ' \
          'stack_mask_vector_start_stop sigma0_scaling_factor_beam'.split()


def product_surface(E, c):
    """any surface as handed over by the processor: vectors have one entry per look, waveforms N * zp samples"""
    over = {n: arr(E, n, (c.L,)) for n in VECTORS}
    M = tm.mul(c.N, c.zp)
    over['waveform_multilooked'] = arr(E, 'waveform', (M,))
    over['beams_range_compr_iq'] = arr(E, 'iq', (c.L, M), 'complex')
    over['stack_bursts'] = burst_array(E, c, 'sb', c.L)
    ci = tm.var('surf.closest_burst_index', 'Int')
    E.assume([tm.le(0, ci), tm.lt(ci, c.L)])
    return surface(E, c, over), M, ci


def stores(E):
    out = {}
    for e in logged(E):
        if e[0] == 'store':
            out.setdefault(e[1], []).append(e[2:])
    return out

from .l1a import *
from dedop.data.input.netcdf_reader import NetCDFReader
from dedop.data.input.l1a.enums import L1AVariables


@case('C02', 'any-order', 12, 200)
def any_order(rng, scratch):
    n = int(rng.integers(1, 60))
    path = os.path.join(scratch, 'c02.nc')
    make(path, n, rng, plrm=int(rng.integers(1, 90)), samples=int(rng.integers(1, 30)), pulses=int(rng.integers(1, 12)))
    want = stored(path)
    size = int(rng.choice([1, 2, 3, 7, 16, 40, 64]))
    r = NetCDFReader(path, chunk_size=size) if rng.random() < .8 else NetCDFReader(path)
    try:
        vs = list(L1AVariables)
        i = 0
        for step in range(150):
            v = vs[int(rng.integers(len(vs)))]
            m = want[v.value].shape[0]
            i = int(rng.integers(m)) if rng.random() < .4 else (i + 1) % m if rng.random() < .7 else max(0, min(m - 1, i + int(rng.integers(-size - 1, size + 2))))
            i = min(i, m - 1)
            got = np.asarray(r.get_value(v, i))
            expect(np.array_equal(got, want[v.value][i]), '%s at record %d is not the stored value (block size %d, read %d, %d records)', v.value, i,
                   size, step, m)
    finally:
        r.close()
        os.unlink(path)
    return 'n=%d size=%d' % (n, size)

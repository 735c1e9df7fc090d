"""What each proof takes for granted besides the generator and the library models (goes into the evidence)."""
COMMON = [
    'floating point numbers are treated as exact reals (rounding, overflow, NaN and infinities are outside the proofs)',
    'the run uses a single thread; no other process changes the same files meanwhile',
]
A = {
    'C01': ['netCDF4: a variable sliced [i:j] delivers the stored values i..j-1; latitudes and longitudes are finite',
            'at least one record exists; a region of interest without any record is not decided (the statement excludes it)'],
    'C02': ['netCDF4: a variable sliced [i:j] delivers the stored values i..min(j, length)-1',
            'the product is not rewritten while it is read'],
    'C03': ['netCDF4 delivers stored values with scale factors applied; lla2ecef is used by its contract (proved under C18)',
            'velocity and vertical are not parallel and not zero (Doppler angle)'],
    'C04': ['called algorithms are used by contract: they do not touch the queues (their own frames are proved under their properties)',
            'the first burst of the stack of a pending surface is still queued and processed (geometric: a surface is seen before it is retired)',
            'record counters of different bursts differ; the burst interval is positive; n_looks etc. from valid configuration',
            'a gap of exactly 1.5 burst intervals may be treated either way'],
    'C06': ['the processor state after an earlier run is arbitrary in every attribute assigned outside the constructor; '
            'algorithm objects carry no other state between runs than focus_found (their results are assigned on every call: C07..C16)'],
    'C07': ['acos/cos/sin/norm by their defining laws; positions distinct where divided by; lla2ecef/ecef2lla by contract (C18)'],
    'C08': ['the target is not at the satellite or on the previous surface; consecutive surfaces are distinct'],
    'C09': ['acos is strictly decreasing on [-1, 1]; a line of sight and a velocity are not zero'],
    'C10': ['each look of the surface refers to a beam of its burst (established by C09)'],
    'C11': ['the discrete Fourier transform is the uninterpreted operator FFT with its definition for the energy scaling; '
            'fftshift/ifftshift are index rotations (modelled)'],
    'C13': ['FFT as in C11; that the orthonormal transform preserves energy is Parseval (library fact, checked numerically)'],
    'C14': ['numpy.round rounds half to even'],
    'C15': ['the Gaussian fit (scipy.curve_fit) is assumed to return three numbers or raise RuntimeError/ValueError'],
    'C16': ['log10 by its product law; positive ranges, speeds and pulse intervals'],
    'C17': ['FFT/IFFT of CAL-2 as mutually inverse library operators'],
    'C18': ['sin^2+cos^2 = 1, arctan2 by its defining law; that Bowring\'s closed form is within a centimetre between the ellipsoid '
            'and satellite altitude is a numerical fact (exact on the ellipsoid: proved; elsewhere: bounded harness only)'],
    'C19': ['constants: sec_in_day = 86400; the two bursts around a surface carry correct UTC tags less than a day apart',
            'float rounding of a TAI stamp (about 1e-7 s) is not considered',
            'datetime arithmetic is exact up to its microsecond resolution and isoformat() denotes the instant'],
    'C20': ['netCDF4 stores what it is given, packing by the declared scale factor and offset and rounding to nearest',
            'waveforms and stacks are not identically zero (a zero waveform has no scale factor)',
            'known finding: surf_type of the L1B-S product'],
    'C21': ['the json module returns the parsed object with keys in file order; a file has no duplicate keys'],
    'C22': ['class bodies run in the order of Python\'s method resolution order; decorators are applied once'],
    'C23': ['json round trip; the file is readable; the shipped change log does not list its own entry (checked on the shipped files)'],
    'C24': ['os/shutil operations follow their documentation on a tree of plain files and directories; no symbolic links; '
            'names contain no newline or NUL; the marker name ".current" is not a workspace or configuration name',
            'an operation interrupted by an I/O error half way is outside the statement'],
    'C25': ['os.listdir delivers each entry once in arbitrary order; fnmatch by contract; no symbolic links'],
    'C27': ['cate.util.cli (run_main, Command, CommandError; not installed) by contract: it parses the arguments with the declared parsers and '
            'executes the command; stubs/cate stands in for it',
            'workspace manager operations by contract (C24, C25); any of them may fail; building a processor does not fail',
            'argparse declarations are exercised by the harness only'],
    'C28': ['cate.util.cli as in C27; workspace manager operations by contract (C24, C25); any of them may fail',
            'os.path functions and glob by contract; lower() is idempotent; the loop of name generation ends (finitely many names)',
            'argparse declarations and the wording of messages are exercised by the harness only; the expansion of wildcards is shown for three patterns'],
    'C29': ['compile and exec by contract: the assignments of the code go to the locals given, or it fails with an Exception; os.path, open and '
            'pkgutil.get_data by contract; the home and the working directory are two directories; no symbolic links; the template resource exists',
            'contents of configuration files are exercised by the harness'],
    'C26': ['the client of a monitor announces a positive total; wall clock is monotone'],
}
A['C05'] = A['C04']


def of(prop):
    return A.get(prop, []) + COMMON

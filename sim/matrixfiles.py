"""Generate the integral-coefficient files (Mass/J/G/L/VV .h5) the solver loads.

The repository does not ship them (they are git-ignored products of a
Mathematica notebook), so the harness derives them from their definition with
exact rational arithmetic, in the layout that
moving_mesh_transport/solver_functions/Chebyshev_matrix_reader.py reads and
solver_classes/matrices.py consumes.

Basis on a cell [a, b], h = b-a, z = (2x-a-b)/h:
    B_0 = 1/sqrt(pi h),   B_n = sqrt(2)/sqrt(pi h) T_n(z)
Mass_ij = int r^2 B_i B_j dr, J_ij = int r B_i B_j dr,
L_ij = int r^2 B_i' B_j dr.
"""
from fractions import Fraction as F
import os

SIZE = 5          # polynomial orders 0..SIZE-1 are supported
LARGE = 11        # the same for the larger set


def _T(n):
    a, b = [F(1)], [F(0), F(1)]
    if n == 0:
        return a
    for _ in range(n - 1):
        c = [F(0)] + [2 * x for x in b]
        for i, x in enumerate(a):
            c[i] -= x
        a, b = b, c
    return b


def _mul(p, q):
    r = [F(0)] * (len(p) + len(q) - 1)
    for i, x in enumerate(p):
        for j, y in enumerate(q):
            r[i + j] += x * y
    return r


def _int(p):
    """integral over [-1, 1]"""
    return sum((x * F(2, k + 1) for k, x in enumerate(p) if k % 2 == 0), F(0))


def _der(p):
    return [k * x for k, x in enumerate(p)][1:] or [F(0)]


def _moments(p):
    return [_int(_mul(p, [F(0)] * k + [F(1)])) for k in range(3)]


def _r2(p):
    """int_{-1}^{1} r(z)^2 p(z) dz as coefficients of (a^2, ab, b^2);
    r = (a+b)/2 + z (b-a)/2"""
    m0, m1, m2 = _moments(p)
    return ((m0 - 2 * m1 + m2) / 4, (2 * m0 - 2 * m2) / 4, (m0 + 2 * m1 + m2) / 4)


def _r1(p):
    m0, m1, _ = _moments(p)
    return ((m0 - m1) / 2, (m0 + m1) / 2)


def coefficients(size=SIZE):
    """float coefficient tables; every denominator is one."""
    mass, jj_, ll_ = {}, {}, {}
    for i in range(size):
        for j in range(size):
            pp = _mul(_T(i), _T(j))
            pref = F(1) if (i == 0) == (j == 0) else None   # None: sqrt2 factor
            # Mass: dr = h/2 dz; B_iB_j = n_i n_j/(pi h) -> factor 1/(2 pi)*n_i n_j
            nn = 2 if (i and j) else 1                       # sqrt2 kept symbolic
            a2, ab, b2 = [c * F(nn, 2) for c in _r2(pp)]
            if pref is None:
                # true factor sqrt(2); the consumer multiplies by sqrt2 when
                # the other index is even and 1/sqrt2 when odd
                other = i or j
                scale = F(1) if other % 2 == 0 else F(2)
                a2, ab, b2 = a2 * scale, ab * scale, b2 * scale
            if (i + j) % 2 == 0:
                mass[i, j] = (a2, ab, b2)
            else:
                assert ab == 0
                mass[i, j] = (a2, b2)
            # J
            ja, jb = [c * F(nn, 2) for c in _r1(pp)]
            if pref is None:
                ja, jb = 2 * ja, 2 * jb        # consumer divides by sqrt2
            jj_[i, j] = (ja, jb)
            # L_ij = int r^2 B_i' B_j dr ; dB_i/dr dr = dB_i/dz dz -> 1/(pi h)
            if i > 0:
                qq = _mul(_der(_T(i)), _T(j))
                nl = 2 if j else 1             # i>0 always; j==0 -> sqrt2 (consumer applies)
                a2, ab, b2 = [c * nl for c in _r2(qq)]
                if (i + j) % 2 != 0:
                    # (c0 a^2 + c1 ab + c2 b^2)/(a-b)/pi  with 1/h = -1/(a-b)
                    ll_[i, j] = (-a2, -ab, -b2)
                else:
                    # (a2 a^2 + ab ab + b2 b^2)/(b-a) is linear: c0 a + c1 b
                    # (b-a)(c0 a + c1 b) = -c0 a^2 + (c0-c1) ab + c1 b^2
                    c0, c1 = -a2, b2
                    assert c0 - c1 == ab
                    ll_[i, j] = (c0, c1)
    return mass, jj_, ll_


def write(folder, size=SIZE):
    import h5py
    import numpy as np
    os.makedirs(folder, exist_ok=True)
    mass, jj_, ll_ = coefficients(size)

    def dump(name, table, shape):
        with h5py.File(os.path.join(folder, name), 'w') as f:
            f.create_dataset('denominators', data=np.ones(shape, dtype=np.int64))
            g = f.create_group('coefficients')
            for key, val in table.items():
                if key == (0, 10):      # same name, and same value, as (10, 0)
                    continue
                g.create_dataset('Element' + ''.join(str(k + 1) for k in key),
                                 data=np.array([[float(v) for v in val]]))
    dump('MassMatrix.h5', mass, (size, size))
    dump('JMatrix.h5', jj_, (size, size))
    dump('LMatrix.h5', ll_, (size, size))
    dump('GMatrix.h5', {}, (size, size))
    dump('VVMatrix.h5', {}, (1, size, size))

"""The planted bugs: source edits (file below src/pykrige, old text, new text) and a demonstration each."""
BUGS = []


def bug(id, property, needs, breaks, edits, demo, files=None):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, files=files or {}))


OKP = "ok.py"
bug("c01-expanded-distances", "C01",
    "coordinates far from the origin (e.g. projected coordinates in the millions) with metre spacing",
    "data distances are computed as |a|^2+|b|^2-2ab, which cancels for large offsets; the kriging matrix is wrong",
    [(OKP, '''            d = cdist(xy, xy, "euclidean")
        elif''', '''            sq = np.sum(xy**2, axis=1)
            d = np.sqrt(
                np.maximum(sq[:, np.newaxis] + sq - 2.0 * np.dot(xy, xy.T), 0.0)
            )
        elif''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(1)
x, y, z = rng.uniform(0, 20, 12), rng.uniform(0, 20, 12), rng.normal(size=12)
gx, gy = rng.uniform(0, 20, 9), rng.uniform(0, 20, 9)
def run(off):
    o = OrdinaryKriging(x + off, y + off, z, variogram_model="spherical", variogram_parameters=[2.0, 15.0, 0.1])
    return o.execute("points", gx + off, gy + off, backend="loop")
a, b = run(0.0), run(2.0**26)
err = max(np.abs(np.asarray(p) - np.asarray(q)).max() for p, q in zip(a, b))
assert err < 1e-4, err
''')

bug("c01-tiny-matrix-cutoff", "C01",
    "semivariogram parameters of tiny magnitude (values measured in small units)",
    "semivariances below an absolute 1e-10 are dropped from the right-hand side in 3D ordinary kriging (loop backend)",
    [("ok3d.py", '''            b[n, 0] = 1.0

            x = np.dot(a_inv, b)''', '''            b = np.where(np.absolute(b) <= self.eps, 0.0, b)
            b[n] = 1.0

            x = np.dot(a_inv, b)''')],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(1)
x, y, z, v = rng.uniform(0, 20, 12), rng.uniform(0, 20, 12), rng.uniform(0, 20, 12), rng.normal(size=12)
g = rng.uniform(0, 20, (3, 9))
def run(s):
    o = OrdinaryKriging3D(x, y, z, v * s, variogram_model="exponential", variogram_parameters=[2.0 * s * s, 15.0, 0.1 * s * s])
    k, ss = o.execute("points", *g, backend="loop")
    return k / s, ss / s / s
a, b = run(1.0), run(1e-6)
err = max(np.abs(np.asarray(p) - np.asarray(q)).max() for p, q in zip(a, b))
assert err < 1e-6, err
''')

bug("c02-specified-masked-loop", "C02",
    "3D universal kriging with specified drift, style 'masked', loop backend, at least one masked cell before an unmasked one",
    "the specified drift values are counted along unmasked cells only, so that cells get the drift of other cells",
    [("uk3d.py", '''        for j in np.nonzero(~mask)[
            0
        ]:  #''', '''        for k, j in enumerate(
            np.nonzero(~mask)[0]
        ):  #'''), ("uk3d.py", "b[i, 0] = spec_vals.flatten()[j]", "b[i, 0] = spec_vals.flatten()[k]")],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(2)
x, y, z, v = rng.uniform(0, 9, (4, 14))
f = lambda x, y, z: x * y - z
o = UniversalKriging3D(x, y, z, v, variogram_model="linear", variogram_parameters=[1.0, 0.1], drift_terms=["specified"],
                       specified_drift=[f(x, y, z)])
gx, gy, gz = np.arange(3.0), np.arange(4.0), np.arange(2.0)
Z, Y, X = np.meshgrid(gz, gy, gx, indexing="ij")
m = np.zeros(X.shape, bool); m[0, 1, 1] = m[1, 0, 2] = True
a = o.execute("masked", gx, gy, gz, mask=m, backend="vectorized", specified_drift_arrays=[f(X, Y, Z)])
b = o.execute("masked", gx, gy, gz, mask=m, backend="loop", specified_drift_arrays=[f(X, Y, Z)])
for p, q in zip(a, b):
    assert np.allclose(p[~m], q[~m]), np.abs(p - q).max()
''')

bug("c02-drift-conditioning", "C07",
    "specified drift values larger than 1000 and evaluation points whose drift values have another maximum than the data",
    "large specified drift terms are divided by their largest value 'for conditioning', data and evaluation points by different numbers",
    [("uk.py", '''                        spec_drift_grids.append(np.squeeze(spec))
                elif style''', '''                        spec_drift_grids.append(self._condition(np.squeeze(spec)))
                elif style'''),
     ("uk.py", '''            for arr in self.specified_drift_data_arrays:
                a[:n, i] = arr
                a[i, :n] = arr
''', '''            for arr in self.specified_drift_data_arrays:
                a[:n, i] = self._condition(arr)
                a[i, :n] = self._condition(arr)
'''),
     ("uk.py", '''    def _exec_vector(self, a, bd, xy,''', '''    @staticmethod
    def _condition(values):
        """Brings large drift values to the order of the other matrix entries."""
        top = np.amax(np.absolute(values))
        return values / top if top > 1.0e3 else values

    def _exec_vector(self, a, bd, xy,''')],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(2)
x, y = rng.uniform(0, 9, (2, 14))
f = lambda x, y: 4000.0 + 300 * x - 100 * y * y
v = 3.0 + 2.0 * f(x, y)
o = UniversalKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.1], drift_terms=["specified"],
                     specified_drift=[f(x, y)])
gx, gy = np.arange(0.0, 5.0), np.arange(0.0, 4.0)
X, Y = np.meshgrid(gx, gy)
e, _ = o.execute("grid", gx, gy, specified_drift_arrays=[f(X, Y)])
assert np.allclose(e, 3.0 + 2.0 * f(X, Y), rtol=1e-6), np.abs(e - 3 - 2 * f(X, Y)).max()
''')

bug("c03-window3d-exactness", "C03",
    "3D ordinary kriging, moving window, exact_values=False, nugget, evaluation at a measurement",
    "the moving window of 3D ordinary kriging ignores exact_values=False",
    [("ok3d.py", '''            if zero_value and self.exact_values:
                b[zero_index[0], 0] = 0.0
            b[n, 0] = 1.0

            if''', '''            if zero_value:
                b[zero_index[0], 0] = 0.0
            b[n, 0] = 1.0

            if''')],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(2)
x, y, z, v = rng.uniform(0, 9, (4, 8))
o = OrdinaryKriging3D(x, y, z, v, variogram_model="linear", variogram_parameters=[1.0, 0.7], exact_values=False)
a = o.execute("points", x[:3], y[:3], z[:3], backend="loop")
b = o.execute("points", x[:3], y[:3], z[:3], backend="loop", n_closest_points=8)
assert np.allclose(a[0], b[0]) and np.allclose(a[1], b[1]), (a, b)
''')

bug("c04-c-window-reuse", "C04",
    "C backend with a moving window, two consecutive evaluation points with the same neighbours in the same order",
    "the compiled moving window does not refill the matrix when the neighbours did not change, though the solver has overwritten it",
    [("lib/cok.pyx", '''        for k in range(n):
            p_i = bd_idx_sel[k]
            for j in range(n):''', '''        same = i > 0 and not mask[i - 1] and not pseudo_inv
        for k in range(n):
            same = same and bd_idx_sel[k] == bd_idx[i - 1, k]
        for k in range(n):
            if same and info == 0 and bd[0] <= eps:
                break  # the matrix is still the one of the previous point
            p_i = bd_idx_sel[k]
            for j in range(n):'''),
     ("lib/cok.pyx", "    cdef int nb, nrhs=1, info\n", "    cdef int nb, nrhs=1, info=0\n    cdef bint same\n")],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(2)
x, y, v = rng.uniform(0, 9, (3, 12))
o = OrdinaryKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.7])
px, py = np.repeat(x[:4], 2), np.repeat(y[:4], 2)
px[::2] += 1e-3
a = o.execute("points", px, py, backend="loop", n_closest_points=5)
b = o.execute("points", px, py, backend="C", n_closest_points=5)
assert np.allclose(a[0], b[0]) and np.allclose(a[1], b[1], atol=1e-9), (a, b)
''')

bug("c04-c-float-parameters", "C12",
    "C backend, exponential model, parameters that are no single precision numbers",
    "the compiled exponential model computes with single precision parameters",
    [("lib/variogram_models.pyx", '''    cdef long k
    cdef double a, b, c
    a = params[0]
    b = params[1]
    c = params[2]
    for k in range(n):
        out[k] = a*(1 - exp(-dist[k]/(b/3.0))) + c''', '''    cdef long k
    cdef float a, b, c
    a = params[0]
    b = params[1]
    c = params[2]
    for k in range(n):
        out[k] = a*(1 - exp(-dist[k]/(b/3.0))) + c''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(2)
x, y, v = rng.uniform(0, 9, (3, 12))
o = OrdinaryKriging(x, y, v, variogram_model="exponential", variogram_parameters=[1.1e3, 7.3, 0.7])
a = o.execute("points", [1.3, 4.4], [2.2, 5.1], backend="loop")
b = o.execute("points", [1.3, 4.4], [2.2, 5.1], backend="C")
assert np.allclose(a[0], b[0], rtol=1e-9) and np.allclose(a[1], b[1], rtol=1e-10), (a, b)
''')

bug("c05-mask-memory-order", "C05",
    "a mask in Fortran memory order (or given transposed), 2D ordinary kriging",
    "masks are flattened in memory order instead of row by row",
    [(OKP, "                mask = mask.flatten()", '''                mask = mask.ravel(order="K")''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(2)
x, y, v = rng.uniform(0, 9, (3, 12))
o = OrdinaryKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.7])
m = np.zeros((3, 5), bool); m[0, 3:] = m[2, 1] = True
for mm in (m, np.asfortranarray(m), m.T):
    a, b = o.execute("masked", np.arange(5.0), np.arange(3.0), mask=mm)
    assert (np.ma.getmaskarray(a) == m).all(), mm
''')

bug("c05-large-batch", "C05",
    "more than 5000 evaluation points at once, vectorized backend, one of the later ones at a measurement, nugget",
    "the test for coincidence with a measurement stops after the first 5000 points",
    [("uk.py", '''        if np.any(np.absolute(bd) <= self.eps):
            zero_value = True
            zero_index = np.where(np.absolute(bd) <= self.eps)

        if self.UNBIAS:
            b = np.zeros((npt, n_withdrifts + 1, 1))''', '''        near = np.absolute(bd[:5000]) <= self.eps
        if np.any(near):
            zero_value = True
            zero_index = np.where(near)

        if self.UNBIAS:
            b = np.zeros((npt, n_withdrifts + 1, 1))''')],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(2)
x, y, v = rng.uniform(0, 9, (3, 12))
o = UniversalKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.7], drift_terms=["regional_linear"])
px, py = rng.uniform(0, 9, (2, 6000))
px[5990:5998], py[5990:5998] = x[:8], y[:8]
a = o.execute("points", px, py)[0]
assert np.allclose(a[5990:5998], v[:8]), a[5990:5998] - v[:8]
''')

bug("c06-approximate-neighbours", "C06",
    "3D moving window with many more data than one tree leaf, neighbours at nearly the same distance",
    "the nearest neighbour search is approximate (within 30 percent)",
    [("ok3d.py", "k=n_closest_points, eps=0.0", "k=n_closest_points, eps=0.3")],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(2)
x, y, z, v = rng.uniform(0, 9, (4, 500))
o = OrdinaryKriging3D(x, y, z, v, variogram_model="linear", variogram_parameters=[1.0, 0.7], nlags=4)
p = rng.uniform(0, 9, (3, 400))
k = 4
a = o.execute("points", *p, backend="loop", n_closest_points=k)[0]
D = np.sqrt(((np.array([x, y, z])[:, None, :] - p[:, :, None])**2).sum(0))
for j in range(400):
    i = np.argsort(D[j])[:k]
    A = np.ones((k + 1, k + 1)); A[k, k] = 0
    d = np.sqrt((x[i][:, None] - x[i])**2 + (y[i][:, None] - y[i])**2 + (z[i][:, None] - z[i])**2)
    A[:k, :k] = -(d + 0.7) * (1 - np.eye(k))
    w = np.linalg.solve(A, np.append(-(D[j][i] + 0.7), 1.0))
    assert abs(w[:k] @ v[i] - a[j]) < 1e-8, (j, w[:k] @ v[i], a[j])
''')

bug("c06-geographic-chord-window", "C06",
    "geographic coordinates, moving window, points near a pole or the date line",
    "the nearest neighbours are searched by plain longitude and latitude scaled at the mean latitude",
    [(OKP, '''                        np.cos(lon_d) * np.cos(lat_d),
                        np.sin(lon_d) * np.cos(lat_d),
                        np.sin(lat_d),
                    ),
                    axis=1,
                )
                lon_p''', '''                        np.cos(lon_d) * np.cos(lat_d),
                        np.sin(lon_d) * np.cos(lat_d),
                        lat_d * 2.0 / np.pi,
                    ),
                    axis=1,
                )
                lon_p'''), (OKP, '''                        np.cos(lon_p) * np.cos(lat_p),
                        np.sin(lon_p) * np.cos(lat_p),
                        np.sin(lat_p),''', '''                        np.cos(lon_p) * np.cos(lat_p),
                        np.sin(lon_p) * np.cos(lat_p),
                        lat_p * 2.0 / np.pi,''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
from pykrige.core import great_circle_distance as gc
rng = np.random.default_rng(2)
x, y, v = rng.uniform(-180, 180, 60), rng.uniform(-90, 90, 60), rng.normal(size=60)
o = OrdinaryKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.7], coordinates_type="geographic")
p = np.array([rng.uniform(-180, 180, 200), rng.uniform(-90, 90, 200)])
k = 4
a = o.execute("points", *p, backend="loop", n_closest_points=k)[0]
for j in range(200):
    D = gc(x, y, p[0, j], p[1, j])
    i = np.argsort(D)[:k]
    A = np.ones((k + 1, k + 1)); A[k, k] = 0
    A[:k, :k] = -(gc(x[i][:, None], y[i][:, None], x[i], y[i]) + 0.7) * (1 - np.eye(k))
    w = np.linalg.solve(A, np.append(-(D[i] + 0.7), 1.0))
    assert abs(w[:k] @ v[i] - a[j]) < 1e-8, (j, w[:k] @ v[i], a[j])
''')

bug("c07-weight-cleanup", "C07",
    "3D ordinary kriging with pseudo_inv=True, values that have a large common offset and many data points with small weights",
    "kriging weights below 1e-5 are zeroed, so that the weights no longer sum to one",
    [("ok3d.py", """            x = np.dot(a_inv, b)
            kvalues[j] = np.sum(x[:n, 0] * self.VALUES)""", """            x = np.dot(a_inv, b)
            w = x[:n, 0] * (np.absolute(x[:n, 0]) > 1e-5) if self.pseudo_inv else x[:n, 0]
            kvalues[j] = np.sum(w * self.VALUES)""")],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(2)
x, y, z, v = rng.uniform(0, 100, (4, 200))
p = rng.uniform(0, 100, (3, 40))
kw = dict(variogram_model="linear", variogram_parameters=[1.0, 0.0], pseudo_inv=True)
a = OrdinaryKriging3D(x, y, z, v, **kw).execute("points", *p, backend="loop")[0]
b = OrdinaryKriging3D(x, y, z, v + 1e4, **kw).execute("points", *p, backend="loop")[0]
assert np.abs(a + 1e4 - b).max() < 1e-5, np.abs(a + 1e4 - b).max()
''')

bug("c08-rotation-order", "C08",
    "3D anisotropy with at least two angles that are not zero",
    "the rotations are applied about z, then y, then x",
    [("core.py", "rot_tot = np.dot(rotate_z, np.dot(rotate_y, rotate_x))", "rot_tot = np.dot(rotate_x, np.dot(rotate_y, rotate_z))")],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(2)
P = rng.uniform(0, 9, (3, 20)); v = rng.normal(size=20); Q = rng.uniform(0, 9, (3, 6))
ang, sc = (30.0, 50.0, -20.0), (2.0, 0.5)
def R(axis, a):
    a = -np.deg2rad(a); c, s = np.cos(a), np.sin(a)
    return {0: np.array([[1, 0, 0], [0, c, -s], [0, s, c]]), 1: np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]]),
            2: np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])}[axis]
c = ((P.max(1) + P.min(1)) / 2)[:, None]
T = np.diag([1, *sc]) @ R(2, ang[2]) @ R(1, ang[1]) @ R(0, ang[0])
f = lambda M: T @ (M - c) + c
kw = dict(variogram_model="exponential", variogram_parameters=[1.0, 6.0, 0.1])
a = OrdinaryKriging3D(*P, v, anisotropy_scaling_y=sc[0], anisotropy_scaling_z=sc[1], anisotropy_angle_x=ang[0],
                      anisotropy_angle_y=ang[1], anisotropy_angle_z=ang[2], **kw).execute("points", *Q)[0]
b = OrdinaryKriging3D(*f(P), v, **kw).execute("points", *f(Q))[0]
assert np.allclose(a, b), a - b
''')

bug("c09-haversine", "C09",
    "points that are nearly antipodal",
    "the great-circle distance is computed with the haversine formula, inaccurate for antipodal points",
    [("core.py", '''        * np.arctan2(
            np.sqrt((c2 * np.sin(dlon)) ** 2 + (c1 * s2 - s1 * c2 * cd) ** 2),
            s1 * s2 + c1 * c2 * cd,
        )''', '''        * 2.0
        * np.arcsin(
            np.sqrt(
                np.minimum(
                    np.sin((lat1 - lat2) / 2.0) ** 2
                    + c1 * c2 * np.sin(dlon / 2.0) ** 2,
                    1.0,
                )
            )
        )''')],
    '''
import numpy as np
from pykrige.core import great_circle_distance as gc
for lat in (0.0, 20.0, 61.0):
    for d in (1e-3, 1e-5, 1e-6):
        g = gc(10.0, lat, 190.0, -lat + d)
        assert abs(g - (180.0 - d)) < 1e-9, (lat, d, g)
''')

bug("c10-drop-zero-distances", "C10",
    "repeated measurement locations",
    "pairs at distance zero are left out of the experimental semivariogram",
    [("core.py", '''    if coordinates_type == "euclidean":
        d = pdist(X, metric="euclidean")
        g = 0.5 * pdist(y[:, None], metric="sqeuclidean")
''', '''    if coordinates_type == "euclidean":
        d = pdist(X, metric="euclidean")
        g = 0.5 * pdist(y[:, None], metric="sqeuclidean")[d > 0.0]
        d = d[d > 0.0]
''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
x = np.array([0.0, 0.0, 1.0, 3.0, 3.5, 5.0]); y = np.zeros(6) + [0, 0, 1, 2, 0, 3]
v = np.array([1.0, 3.0, 2.0, 4.0, 0.0, 7.0])
o = OrdinaryKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.7], nlags=3)
i, j = np.triu_indices(6, 1)
d, g = np.hypot(x[i] - x[j], y[i] - y[j]), 0.5 * (v[i] - v[j])**2
e = np.linspace(d.min(), d.max(), 4); e[-1] += 1
lags = [d[(d >= e[k]) & (d < e[k + 1])].mean() for k in range(3)]
assert np.allclose(o.lags, lags), (o.lags, lags)
''')

bug("c11-nugget-bound", "C11",
    "noisy data for which the smallest semivariance lies below the best nugget",
    "the nugget is limited to the smallest experimental semivariance",
    [("core.py", "bnds = ([0.0, 0.0], [np.inf, np.amax(semivariance)])", "bnds = ([0.0, 0.0], [np.inf, np.amin(semivariance) + 1e-9 * np.amax(semivariance)])")],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
bad = 0
for seed in range(60):
    rng = np.random.default_rng(seed)
    n = 30
    x, y = rng.uniform(0, 50, (2, n)); v = rng.normal(size=n) + 0.05 * x
    for m in ("linear",):
     o = OrdinaryKriging(x, y, v, variogram_model=m, nlags=8)
     p = np.array(o.variogram_model_parameters)
     l, s = o.lags, o.semivariance
     cost = lambda q: np.sum(np.sqrt(1 + (o.variogram_function(list(q), l) - s)**2) - 1)
     for f in (0.97, 1.03, 1.1, 1.3):
        q = p.copy(); q[1] *= f
        if q[1] <= s.max() and cost(q) < cost(p) * (1 - 1e-3):
            bad += 1
assert bad == 0, bad
''')

bug("c13-stale-tree", "C13",
    "3D ordinary kriging: execute with a moving window, update the variogram with other anisotropy, execute with a window again",
    "the search tree is kept from the first execute and not rebuilt when the adjusted coordinates change",
    [("ok3d.py", '''            tree = cKDTree(xyz_data)
            bd, bd_idx = tree''', '''            if getattr(self, "_tree", None) is None:
                self._tree = cKDTree(xyz_data)
            bd, bd_idx = self._tree''')],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(2)
P = rng.uniform(0, 9, (3, 20)); v = rng.normal(size=20); Q = rng.uniform(0, 9, (3, 6))
kw = dict(variogram_model="exponential", variogram_parameters=[1.0, 6.0, 0.1])
o = OrdinaryKriging3D(*P, v, **kw)
o.execute("points", *Q, backend="loop", n_closest_points=4)
o.update_variogram_model(anisotropy_scaling_z=7.0, **kw)
a = o.execute("points", *Q, backend="loop", n_closest_points=4)[0]
b = OrdinaryKriging3D(*P, v, anisotropy_scaling_z=7.0, **kw).execute("points", *Q, backend="loop", n_closest_points=4)[0]
assert np.allclose(a, b), a - b
''')

bug("c13-angle-y-unnoticed", "C13",
    "3D universal kriging, an update that changes only the angle about y",
    "an update in which only the angle about y differs keeps the old adjusted coordinates",
    [("uk3d.py", '''            or anisotropy_angle_y != self.anisotropy_angle_y
''', '''            or anisotropy_angle_x != self.anisotropy_angle_x
''')],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(2)
P = rng.uniform(0, 9, (3, 20)); v = rng.normal(size=20); Q = rng.uniform(0, 9, (3, 6))
kw = dict(variogram_model="exponential", variogram_parameters=[1.0, 6.0, 0.1])
an = dict(anisotropy_scaling_z=3.0)
o = UniversalKriging3D(*P, v, **an, **kw)
o.update_variogram_model(anisotropy_angle_y=40.0, **an, **kw)
a = o.execute("points", *Q)[0]
b = UniversalKriging3D(*P, v, anisotropy_angle_y=40.0, **an, **kw).execute("points", *Q)[0]
assert np.allclose(a, b), a - b
''')

bug("c14-alias-values", "C14",
    "float64 value arrays that the caller changes after construction",
    "the object keeps a view of the caller's array of values",
    [("uk.py", "self.Z = np.atleast_1d(np.squeeze(np.array(z, copy=True, dtype=np.float64)))",
      "self.Z = np.atleast_1d(np.squeeze(np.asarray(z, dtype=np.float64)))")],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(2)
x, y, v = rng.uniform(0, 9, (3, 20))
o = UniversalKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.7])
a = o.execute("points", [1.0, 2.0], [3.0, 4.0])[0]
v += 10
b = o.execute("points", [1.0, 2.0], [3.0, 4.0])[0]
assert np.array_equal(a, b), (a, b)
''')

bug("c14-state-after-failure", "C14",
    "a functional drift that raises during execute; then another request on the same object",
    "the drift terms are consumed while the kriging matrix is built and only restored at the end, not when a drift function raises",
    [("uk.py", '''        if self.functional_drift:
            for func in self.functional_drift_terms:
                a[:n, i] = func(self.X_ADJUSTED, self.Y_ADJUSTED)
                a[i, :n] = func(self.X_ADJUSTED, self.Y_ADJUSTED)
                i += 1
''', '''        if self.functional_drift:
            done, pending = [], self.functional_drift_terms
            while pending:
                func = pending.pop(0)
                a[:n, i] = func(self.X_ADJUSTED, self.Y_ADJUSTED)
                a[i, :n] = a[:n, i]
                done.append(func)
                i += 1
            pending.extend(done)
''')],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(2)
x, y, v = rng.uniform(0, 9, (3, 20))
fail = [False]
def f(x, y):
    if fail[0]:
        raise RuntimeError("x")
    return x * y
o = UniversalKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.7], drift_terms=["functional"],
                     functional_drift=[lambda x, y: x, f])
a = o.execute("points", [1.0, 2.0], [3.0, 4.0])[0]
fail[0] = True
try:
    o.execute("points", [1.0, 2.0], [3.0, 4.0])
except RuntimeError:
    pass
fail[0] = False
b = o.execute("points", [1.0, 2.0], [3.0, 4.0])[0]
assert np.array_equal(a, b), (a, b)
''')

bug("c15-shared-rhs", "C15",
    "two threads executing on the same object with the loop backend, or an execute from inside a variogram function",
    "the right-hand side of the loop backend is a buffer kept on the object and shared by concurrent requests",
    [(OKP, '''            b = np.zeros((n + 1, 1))
            b[:n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
            if zero_value and self.exact_values:
                b[zero_index[0], 0] = 0.0
            b[n, 0] = 1.0
            x = np.dot(a_inv, b)''', '''            b = self.__dict__.setdefault("_rhs", np.zeros((n + 1, 1)))
            b[:n, 0] = bd
            b[:n, 0] = -self.variogram_function(self.variogram_model_parameters, b[:n, 0])
            if zero_value and self.exact_values:
                b[zero_index[0], 0] = 0.0
            b[n, 0] = 1.0

            x = np.dot(a_inv, b)''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(2)
x, y, v = rng.uniform(0, 9, (3, 20))
inner = [False]
def vario(p, d):
    if inner[0] and np.ndim(d) == 1:
        inner[0] = False
        o.execute("points", [7.0], [8.0], backend="loop")
    return 0.3 + d
o = OrdinaryKriging(x, y, v, variogram_model="custom", variogram_parameters=[1.0], variogram_function=vario)
a = o.execute("points", [1.0, 2.0], [3.0, 4.0], backend="loop")[0]
inner[0] = True
b = o.execute("points", [1.0, 2.0], [3.0, 4.0], backend="loop")[0]
assert np.allclose(a, b), (a, b)
''')

bug("c15-module-cache", "C15",
    "two threads kriging different objects with the C moving window at the same time, or a re-entrant request",
    "the drift columns of the kriging matrix are collected in a list shared by all objects",
    [("uk3d.py", '''        if self.functional_drift:
            for func in self.functional_drift_terms:
                a[:n, i] = func(self.X_ADJUSTED, self.Y_ADJUSTED, self.Z_ADJUSTED)
                a[i, :n] = func(self.X_ADJUSTED, self.Y_ADJUSTED, self.Z_ADJUSTED)
                i += 1
''', '''        if self.functional_drift:
            cols = self._columns
            del cols[:]
            for func in self.functional_drift_terms:
                cols.append(func(self.X_ADJUSTED, self.Y_ADJUSTED, self.Z_ADJUSTED))
            for col in cols[-len(self.functional_drift_terms) :]:
                a[:n, i] = col
                a[i, :n] = col
                i += 1
'''), ("uk3d.py", "    UNBIAS = True  #", "    _columns = []  # work space\n    UNBIAS = True  #")],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(2)
x, y, z, v = rng.uniform(0, 9, (4, 20))
kw = dict(variogram_model="linear", variogram_parameters=[1.0, 0.7], drift_terms=["functional"])
other = UniversalKriging3D(x, y, z, v, functional_drift=[lambda x, y, z: x, lambda x, y, z: y * y], **kw)
inner = [False]
def g(x, y, z):
    if inner[0]:
        inner[0] = False
        other.execute("points", [7.0], [8.0], [1.0])
    return x * z
o = UniversalKriging3D(x, y, z, v, functional_drift=[lambda x, y, z: z, g], **kw)
a = o.execute("points", [1.0, 2.0], [3.0, 4.0], [3.0, 3.0])[0]
inner[0] = True
b = o.execute("points", [1.0, 2.0], [3.0, 4.0], [3.0, 3.0])[0]
assert np.allclose(a, b), (a, b)
''')

bug("c16-product-underflow", "C16",
    "several hundred data, or small variances",
    "cR takes the product of all variances, which underflows or overflows, instead of the mean of their logarithms",
    [("core.py", "return Q2 * np.exp(np.sum(np.log(sigma**2)) / sigma.shape[0])", "return Q2 * np.prod(sigma**2) ** (1.0 / sigma.shape[0])")],
    '''
import numpy as np
from pykrige.core import calc_cR
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(2)
x, y, v = rng.uniform(0, 9, (3, 90))
o = OrdinaryKriging(x, y, v * 1e-3, variogram_model="linear", variogram_parameters=[1e-6, 7e-7], enable_statistics=True)
want = o.Q2 * np.exp(np.mean(np.log(o.sigma**2)))
assert np.isclose(o.cR, want), (o.cR, want)
''')

bug("c17-pivot-array", "C17",
    "the moving window of the C backend with as many neighbours as data (the corruption is usually swallowed by heap padding)",
    "the pivot array is one entry too short: dgesv writes behind it",
    [("lib/cok.pyx", "cdef int [::1] ipiv = np.zeros(n_max+1, dtype='int32')", "cdef int [::1] ipiv = np.zeros(n_max, dtype='int32')")],
    '''
import numpy as np
import pykrige.lib.cok as cok
from pykrige.ok import OrdinaryKriging
# arrays of the extension get 64 guard bytes on both sides
made = []
class Proxy:
    def __getattr__(self, name):
        return getattr(np, name)
    def guard(self, shape, dtype):
        dt = np.dtype(dtype)
        n = int(np.prod(shape)) * dt.itemsize
        buf = np.full(n + 128, 0xA5, np.uint8)
        made.append((buf, n))
        return buf[64:64 + n].view(dt).reshape(shape)
    def zeros(self, shape, dtype=float, order="C"):
        if order != "C":
            a = self.guard(tuple(shape)[::-1], dtype).T
        else:
            a = self.guard(shape, dtype)
        a[...] = 0
        return a
    def empty(self, shape, dtype=float, order="C"):
        return self.zeros(shape, dtype, order)
cok.np = Proxy()
rng = np.random.default_rng(2)
for n in (3, 7, 30):
    x, y, v = rng.uniform(0, 9, (3, n))
    o = OrdinaryKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.7])
    o.execute("points", [1.0, 2.0], [3.0, 4.0], backend="C", n_closest_points=n)
    for buf, m in made:
        assert (buf[:64] == 0xA5).all() and (buf[64 + m:] == 0xA5).all(), "written outside an array"
''')

bug("c17-sorted-distances", "C17",
    "the C moving window with no measurement at the evaluation point (distance loop runs past the end only if all are near)",
    "check_b_vect walks the sorted distances without looking at the end of the array: all neighbours within the cutoff make it read and write on",
    [("lib/cok.pyx", '''    for k in range(n):
        if bd[k] <= eps:
            b[k] = 0.0

    return 0''', '''    k = 0
    if n > 0 and bd[n - 1] > eps:  # the usual case
        for k in range(n):
            if bd[k] <= eps:
                b[k] = 0.0
    else:
        while bd[k] <= eps:
            b[k] = 0.0
            k += 1

    return 0''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
# all measurements within the cutoff distance of the evaluation point
x = np.array([0.0, 1e-12, 2e-12]); y = np.zeros(3); v = np.array([1.0, 2.0, 4.0])
o = OrdinaryKriging(np.append(x, 50.0), np.append(y, 0.0), np.append(v, 3.0), variogram_model="linear",
                    variogram_parameters=[1.0, 0.7], pseudo_inv=True)
p = np.zeros(5)
a = o.execute("points", p, p, backend="loop", n_closest_points=3)
b = o.execute("points", p, p, backend="C", n_closest_points=3)
assert np.allclose(a[0], b[0]) and np.allclose(a[1], b[1]), (a, b)
''')

bug("c18-corner-dy", "C18",
    "reading a raster with corner coordinates and different DX and DY",
    "the row coordinate of the first cell centre is computed with DX",
    [("kriging_tools.py", "            yllcenter = yllcorner + dy / 2.0", "            yllcenter = yllcorner + dx / 2.0")],
    '''
import os, tempfile
import numpy as np
from pykrige.kriging_tools import read_asc_grid
with tempfile.TemporaryDirectory() as d:
    f = d + "/a.asc"
    open(f, "w").write("NCOLS 2\\nNROWS 3\\nXLLCORNER 0.0\\nYLLCORNER 10.0\\nDX 1.0\\nDY 4.0\\nNODATA_VALUE -9\\n1 2\\n3 4\\n5 6\\n")
    g, x, y, c, n = read_asc_grid(f)
    assert np.allclose(y, [12, 16, 20]) and np.allclose(x, [0.5, 1.5]), (x, y)
''')

bug("c19-coarse-extent", "C19",
    "grid coordinates with more than four decimals (degrees, arc seconds)",
    "the upper limits of the grid are written with four decimals, so that the coordinates read back are shifted",
    [("kriging_tools.py", "    hix = xllcenter + (nx - 1) * dx\n", "    hix = round(float(xllcenter + (nx - 1) * dx), 4)\n")],
    '''
import os, tempfile
import numpy as np
from pykrige.kriging_tools import read_zmap_grid, write_zmap_grid
x = 7.0 + np.arange(5) / 3600; y = 50.0 + np.arange(4) / 3600
with tempfile.TemporaryDirectory() as d:
    f = d + "/a.zmap"
    write_zmap_grid(x, y, np.ones((4, 5)), filename=f)
    g = read_zmap_grid(f)
    assert np.allclose(g[1], x, rtol=0, atol=1e-9), g[1] - x
''')

bug("c20-asc-reshape", "C20",
    "a raster file whose header has rows and columns exchanged, or whose body has the values of a row on several lines",
    "only the number of values is compared with the header, the body is reshaped",
    [("kriging_tools.py", '''    grid_array = np.flipud(raw_grid_array)

    if nrows != grid_array.shape[0] or ncols != grid_array.shape[1]:''', '''    grid_array = np.flipud(raw_grid_array)
    if raw_grid_array.size == nrows * ncols:
        grid_array = np.flipud(raw_grid_array.reshape((nrows, ncols)))
    if nrows != grid_array.shape[0] or ncols != grid_array.shape[1]:''')],
    '''
import os, tempfile
import numpy as np
from pykrige.kriging_tools import read_asc_grid
with tempfile.TemporaryDirectory() as d:
    f = d + "/a.asc"
    open(f, "w").write("NCOLS 3\\nNROWS 2\\nXLLCENTER 0.0\\nYLLCENTER 10.0\\nDX 1.0\\nDY 4.0\\nNODATA_VALUE -9\\n1 2\\n3 4\\n5 6\\n")
    try:
        g = read_asc_grid(f)
    except Exception as e:
        print("rejected", e)
    else:
        raise SystemExit("accepted: %r" % (g,))
''')


bug("c21-window-at-construction", "C21",
    "changing n_closest_points with set_params (as grid search does) after construction or after a fit",
    "the wrapper keeps the window size of the first execution",
    [("compat.py", "            points.update(dict(n_closest_points=self.n_closest_points))", '''            if not hasattr(self.model, "_window"):
                self.model._window = self.n_closest_points
            points.update(dict(n_closest_points=self.model._window))''')],
    '''
import numpy as np
from pykrige.compat import Krige
rng = np.random.default_rng(2)
P = rng.uniform(0, 9, (20, 2)); v = rng.normal(size=20)
kw = dict(variogram_model="linear", variogram_parameters=[1.0, 0.1])
k = Krige(n_closest_points=12, **kw); k.fit(P, v); k.predict(P[:3] + 0.3)
k.set_params(n_closest_points=3)
a = k.predict(P[:3] + 0.3)
j = Krige(n_closest_points=3, **kw); j.fit(P, v)
assert np.allclose(a, j.predict(P[:3] + 0.3)), a
''')

bug("c22-targets-in-place", "C22",
    "predicting twice with a regression model whose predict returns the same array again (or using its array afterwards)",
    "the kriged residual is added in place to the array of the regression model",
    [("rk.py", "return self.krige_residual(x, **kwargs) + self.regression_model.predict(p)",
      "pred = self.regression_model.predict(p)\n        pred += self.krige_residual(x, **kwargs)\n        return pred")],
    '''
import numpy as np
from sklearn.base import BaseEstimator, RegressorMixin
from pykrige.rk import RegressionKriging
class Integer(RegressorMixin, BaseEstimator):
    """A rounding table whose predictions are stored."""
    def fit(self, X, y):
        self.t_ = {}; return self
    def predict(self, X):
        return self.t_.setdefault(X.tobytes(), X[:, 0] * 2.0)
rng = np.random.default_rng(2)
P = rng.uniform(0, 9, (20, 2)); p = rng.normal(size=(20, 2)); y = p @ [1, 2] + rng.normal(size=20)
r = RegressionKriging(Integer(), variogram_parameters=[1.0, 0.0]); r.fit(p, P, y)
a = r.predict(p[:4] + 1, P[:4]).copy()
b = r.predict(p[:4] + 1, P[:4])
assert np.allclose(a, b), (a, b)
''')

bug("c22-score-weights", "C22",
    "score with sample weights",
    "the score of regression kriging ignores the sample weights",
    [("rk.py", "y_pred=self.predict(p, x, **kwargs), y_true=y, sample_weight=sample_weight", "y_pred=self.predict(p, x, **kwargs), y_true=y")],
    '''
import numpy as np
from sklearn.linear_model import LinearRegression
from sklearn.metrics import r2_score
from pykrige.rk import RegressionKriging
rng = np.random.default_rng(2)
P = rng.uniform(0, 9, (30, 2)); p = rng.normal(size=(30, 2)); y = p @ [1, 2] + rng.normal(size=30); w = rng.uniform(size=10)
r = RegressionKriging(LinearRegression(), variogram_parameters=[1.0, 0.0]); r.fit(p[:20], P[:20], y[:20])
assert np.isclose(r.score(p[20:], P[20:], y[20:], sample_weight=w), r2_score(y[20:], r.predict(p[20:], P[20:]), sample_weight=w))
''')

bug("c23-ilr-basis", "C23",
    "four or more classes",
    "the compositions get a small constant added before the log-ratio, which breaks the isometry for small parts",
    [("ck.py", "    data = np.maximum(data, np.finfo(float).eps)", "    data = closure(data + 1e-9)")],
    '''
import numpy as np
from pykrige.ck import ilr_transformation, inverse_ilr_transformation
c = np.array([[1e-12, 0.3, 0.7 - 1e-12], [0.2, 0.3, 0.5]])
assert np.allclose(inverse_ilr_transformation(ilr_transformation(c)), c, rtol=1e-6, atol=0), inverse_ilr_transformation(ilr_transformation(c))
''')

bug("c24-mask-size", "C24",
    "3D masks whose number of cells is right but whose axes are permuted",
    "a 3D mask of the wrong shape but the right size is accepted",
    [("uk3d.py", '''                    else:
                        raise ValueError(
                            "Mask dimensions do not match specified grid dimensions."
                        )''', '''                    elif mask.size != nx * ny * nz:
                        raise ValueError(
                            "Mask dimensions do not match specified grid dimensions."
                        )''')],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(2)
x, y, z, v = rng.uniform(0, 9, (4, 20))
o = UniversalKriging3D(x, y, z, v, variogram_model="linear", variogram_parameters=[1.0, 0.7])
try:
    r = o.execute("masked", np.arange(4.0), np.arange(3.0), np.arange(2.0), mask=np.zeros((3, 2, 4), bool))
except ValueError:
    pass
else:
    raise SystemExit("accepted")
''')

bug("c24-extra-drift", "C24",
    "more specified drift arrays for the evaluation points than drift terms",
    "additional specified drift arrays are accepted (and used as further rows of the system or ignored)",
    [("uk.py", "            if len(spec_drift_grids) != len(self.specified_drift_data_arrays):",
      "            if len(spec_drift_grids) < len(self.specified_drift_data_arrays):")],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(2)
x, y, v = rng.uniform(0, 9, (3, 20))
o = UniversalKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.7], drift_terms=["specified"], specified_drift=[x * y])
for b in ("loop", "vectorized"):
    try:
        o.execute("points", [1.0, 2.0], [1.0, 2.0], backend=b, specified_drift_arrays=[np.array([1.0, 4.0]), np.array([3.0, 1.0])])
    except ValueError:
        pass
    else:
        raise SystemExit("accepted " + b)
''')

bug("c25-rank-tolerance", "C25",
    "pseudo-inverse with a badly conditioned kriging matrix without redundant data (close points, gaussian model)",
    "the pseudo-inverse drops singular values below 1e-6 of the largest",
    [("core.py", 'P_INV = {"pinv": spl.pinv, "pinvh": spl.pinvh}', '''P_INV = {
    "pinv": lambda a: spl.pinv(a, rtol=1e-6),
    "pinvh": lambda a: spl.pinvh(a, rtol=1e-6),
}''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
x = np.array([0.0, 1e-6, 3.0, 5.0, 7.0, 100.0]); y = np.array([0.0, 0.0, 1.0, 2.0, 1.0, 0.0]); v = np.array([1.0, 1.5, 2.0, 0.0, 3.0, 4.0])
kw = dict(variogram_model="linear", variogram_parameters=[1.0, 0.0])
a = OrdinaryKriging(x, y, v, **kw).execute("points", [0.0, 2.0], [0.0, 1.0], backend="loop")[0]
b = OrdinaryKriging(x, y, v, pseudo_inv=True, **kw).execute("points", [0.0, 2.0], [0.0, 1.0], backend="loop")[0]
assert np.allclose(a, b, atol=1e-4), (a, b)
''')

bug("c26-uniform-spacing", "C26",
    "external drift grid with unequal spacing, location strictly inside a cell",
    "the bilinear interpolation divides by the first cell's width",
    [("uk.py", '''                    ) / (
                        (
                            self.external_Z_array_x[external_x2_index]
                            - self.external_Z_array_x[external_x1_index]
                        )''', '''                    ) / (
                        (
                            self.external_Z_array_x[1]
                            - self.external_Z_array_x[0]
                        )''')],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(2)
x, y = rng.uniform(0, 8, (2, 15))
gx, gy = np.array([0.0, 1.0, 3.0, 8.0]), np.array([0.0, 4.0, 8.0])
X, Y = np.meshgrid(gx, gy)
D = 1 + X + 2 * Y + X * Y
v = 1 + x + 2 * y + x * y
o = UniversalKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.7], drift_terms=["external_Z"],
                     external_drift=D, external_drift_x=gx, external_drift_y=gy)
px, py = rng.uniform(0, 8, (2, 15))
e = o.execute("points", px, py)[0]
assert np.allclose(e, 1 + px + 2 * py + px * py), e - (1 + px + 2 * py + px * py)
''')

bug("c27-negative-fold", "C27",
    "two measurements very close to each other and an evaluation point next to them",
    "distances below 1e-4 are treated as coincidence in the kriging matrix, not only on its diagonal (variances depend on it)",
    [("uk.py", '''        a[:n, :n] = -self.variogram_function(self.variogram_model_parameters, d)

        np.fill_diagonal(a, 0.0)
''', '''        a[:n, :n] = -self.variogram_function(self.variogram_model_parameters, d)
        a[:n, :n][d < 1e-4] = 0.0  # the diagonal
''')],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
from pykrige.ok import OrdinaryKriging
x = np.array([0.0, 5e-5, 3.0, 5.0, 7.0]); y = np.array([0.0, 0.0, 1.0, 2.0, 1.0]); v = np.array([1.0, 1.5, 2.0, 0.0, 3.0])
kw = dict(variogram_model="linear", variogram_parameters=[1.0, 0.5])
a = OrdinaryKriging(x, y, v, **kw).execute("points", [1.0, 2.0], [0.0, 1.0], backend="loop")
b = UniversalKriging(x, y, v, **kw).execute("points", [1.0, 2.0], [0.0, 1.0], backend="loop")
assert np.allclose(a[0], b[0]) and np.allclose(a[1], b[1]), (a, b)
''')

bug("c28-update-angle", "C28",
    "updating ordinary kriging with a rotated anisotropic GSTools model",
    "the angle of a GSTools model is ignored on update",
    [(OKP, '''            self.variogram_model = "custom"
            variogram_function = self.model.pykrige_vario
            variogram_parameters = []
            anisotropy_scaling = self.model.pykrige_anis
            anisotropy_angle = self.model.pykrige_angle
        if (
            self.variogram_model not in self.variogram_dict.keys()
            and self.variogram_model != "custom"
        ):
            raise ValueError(
                "Specified variogram model '%s' is not supported." % variogram_model
            )
        elif self.variogram_model == "custom":
            if variogram_function is None or not callable(variogram_function):
                raise ValueError(
                    "Must specify callable function for custom variogram model."
                )
            else:
                self.variogram_function = variogram_function
        else:
            self.variogram_function = self.variogram_dict[self.variogram_model]

        if (
            anisotropy_scaling''', '''            self.variogram_model = "custom"
            variogram_function = self.model.pykrige_vario
            variogram_parameters = []
            anisotropy_scaling = self.model.pykrige_anis
        if (
            self.variogram_model not in self.variogram_dict.keys()
            and self.variogram_model != "custom"
        ):
            raise ValueError(
                "Specified variogram model '%s' is not supported." % variogram_model
            )
        elif self.variogram_model == "custom":
            if variogram_function is None or not callable(variogram_function):
                raise ValueError(
                    "Must specify callable function for custom variogram model."
                )
            else:
                self.variogram_function = variogram_function
        else:
            self.variogram_function = self.variogram_dict[self.variogram_model]

        if (
            anisotropy_scaling''')],
    '''
import numpy as np, gstools as gs
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(2)
x, y, v = rng.uniform(0, 9, (3, 20))
m = gs.Exponential(dim=2, var=2, len_scale=[6, 2], angles=0.6, nugget=0.2)
a = OrdinaryKriging(x, y, v, m)
b = OrdinaryKriging(x, y, v, "linear", [1.0, 0.1]); b.update_variogram_model(m)
p = rng.uniform(0, 9, (2, 5))
assert np.allclose(a.execute("points", *p)[0], b.execute("points", *p)[0])
''')

bug("c29-functional-original", "C29",
    "functional drift with anisotropy in 3D universal kriging",
    "the drift functions are evaluated at the original coordinates of the data but at the adjusted ones of the points",
    [("uk3d.py", "                a[:n, i] = func(self.X_ADJUSTED, self.Y_ADJUSTED, self.Z_ADJUSTED)\n                a[i, :n] = func(self.X_ADJUSTED, self.Y_ADJUSTED, self.Z_ADJUSTED)\n",
      "                a[:n, i] = func(self.X_ORIG, self.Y_ORIG, self.Z_ORIG)\n                a[i, :n] = func(self.X_ORIG, self.Y_ORIG, self.Z_ORIG)\n")],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(2)
x, y, z, v = rng.uniform(0, 9, (4, 20))
kw = dict(variogram_model="linear", variogram_parameters=[1.0, 0.7], anisotropy_scaling_y=3.0, anisotropy_angle_z=30.0)
a = UniversalKriging3D(x, y, z, v, drift_terms=["regional_linear"], **kw)
b = UniversalKriging3D(x, y, z, v, drift_terms=["functional"], functional_drift=[lambda x, y, z: x, lambda x, y, z: y, lambda x, y, z: z], **kw)
p = rng.uniform(0, 9, (3, 5))
assert np.allclose(a.execute("points", *p)[0], b.execute("points", *p)[0])
''')

bug("c12-gaussian-tail", "C12",
    "C backend, gaussian model, a measurement farther than about three ranges from the evaluation point",
    "the C gaussian model is cut off to the sill beyond a few ranges, where it still differs by 1e-5 of the sill",
    [("lib/variogram_models.pyx", "        out[k] = a*(1 - exp(-(dist[k]/(b*4.0/7.0))**2)) + c\n",
      "        # negligible beyond this distance, saves the exponential\n        if dist[k] > 2.0*b:\n            out[k] = a + c\n        else:\n            out[k] = a*(1 - exp(-(dist[k]/(b*4.0/7.0))**2)) + c\n")],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(2)
x, y, v = rng.uniform(0, 9, (3, 20))
o = OrdinaryKriging(x, y, 1000 * v, variogram_model="gaussian", variogram_parameters=[5.0, 3.0, 0.5])
p = rng.uniform(0, 9, (2, 30))
a = [o.execute("points", *p, backend=b) for b in ("C", "loop")]
assert np.allclose(a[0][0], a[1][0], rtol=1e-9) and np.allclose(a[0][1], a[1][1], rtol=1e-9)
''')

bug("c13-nudged-anisotropy", "C13",
    "an update that changes the anisotropy by less than a percent",
    "the coordinates are adjusted again only if the anisotropy changed noticeably",
    [("uk.py", '''            anisotropy_scaling != self.anisotropy_scaling
            or anisotropy_angle != self.anisotropy_angle
''', '''            abs(anisotropy_scaling - self.anisotropy_scaling) > 0.01
            or abs(anisotropy_angle - self.anisotropy_angle) > 0.01
''')],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(2)
x, y, v = rng.uniform(0, 9, (3, 20))
kw = dict(variogram_model="exponential", variogram_parameters=[2.0, 4.0, 0.3])
a = UniversalKriging(x, y, v, anisotropy_scaling=2.0, anisotropy_angle=30.0, **kw)
a.update_variogram_model("exponential", [2.0, 4.0, 0.3], anisotropy_scaling=2.008, anisotropy_angle=30.0)
b = UniversalKriging(x, y, v, anisotropy_scaling=2.008, anisotropy_angle=30.0, **kw)
p = rng.uniform(0, 9, (2, 9))
assert np.allclose(a.execute("points", *p)[0], b.execute("points", *p)[0], rtol=1e-10)
''')

bug("c05-large-grid-precision", "C05",
    "a 3D ordinary kriging grid of more than 2000 cells",
    "the coordinates of large grids are kept in single precision to save memory",
    [("ok3d.py", '''            grid_z, grid_y, grid_x = np.meshgrid(zpts, ypts, xpts, indexing="ij")
            xpts = grid_x.flatten()
            ypts = grid_y.flatten()
            zpts = grid_z.flatten()
''', '''            grid_z, grid_y, grid_x = np.meshgrid(zpts, ypts, xpts, indexing="ij")
            kind = np.float32 if npt > 2000 else np.float64
            xpts = grid_x.flatten().astype(kind)
            ypts = grid_y.flatten().astype(kind)
            zpts = grid_z.flatten().astype(kind)
''')],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(2)
x, y, z, v = rng.uniform(0, 9, (4, 10))
o = OrdinaryKriging3D(x, y, z, v, variogram_model="exponential", variogram_parameters=[2.0, 4.0, 0.3])
g = [np.sort(rng.uniform(0, 9, 14)) for _ in range(3)]
k = o.execute("grid", *g, backend="loop")[0]
gz, gy, gx = np.meshgrid(g[2], g[1], g[0], indexing="ij")
p = o.execute("points", gx.ravel()[:50], gy.ravel()[:50], gz.ravel()[:50], backend="loop")[0]
assert np.abs(k.ravel()[:50] - p).max() < 1e-9
''')

bug("c06-many-neighbours", "C06",
    "a moving window of more than 40 of many more data, in 2D",
    "large windows are searched approximately, so that they are not made of the closest points",
    [("ok.py", "            bd, bd_idx = tree.query(xy_points, k=n_closest_points, eps=0.0)\n",
      "            # the outer part of a large window hardly matters\n            eps = 0.0 if n_closest_points <= 40 else 0.1\n            bd, bd_idx = tree.query(xy_points, k=n_closest_points, eps=eps)\n")],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(2)
x, y, v = rng.uniform(0, 9, (3, 300))
kw = dict(variogram_model="linear", variogram_parameters=[1.0, 2.0])
o = OrdinaryKriging(x, y, v, **kw)
for q in rng.uniform(0, 9, (12, 2)):
    i = np.argsort(np.hypot(x - q[0], y - q[1]))[:60]
    w = OrdinaryKriging(x[i], y[i], v[i], **kw)
    a, b = o.execute("points", q[:1], q[1:], backend="loop", n_closest_points=60), w.execute("points", q[:1], q[1:], backend="loop")
    assert np.allclose(a[0], b[0], rtol=1e-8) and np.allclose(a[1], b[1], rtol=1e-8)
''')

bug("c10-float-distances", "C10",
    "geographic coordinates of stations that are metres apart",
    "the distances of the experimental semivariogram are kept in single precision",
    [("core.py", '''        d = great_circle_distance(x1, y1, x2, y2)
        g = 0.5 * (z1 - z2) ** 2.0
        indices = np.indices(d.shape)''', '''        # n * n of them: half the memory will do
        d = great_circle_distance(x1.astype(np.float32), y1, x2.astype(np.float32), y2)
        g = 0.5 * (z1 - z2) ** 2.0
        indices = np.indices(d.shape)''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(2)
x, y, v = 101.0 + rng.uniform(0, 1e-4, 30), rng.uniform(0, 1e-4, 30), rng.normal(size=30)
o = OrdinaryKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.1], coordinates_type="geographic", nlags=5)
d = np.hypot(x[:, None] - x, y[:, None] - y)[np.tril_indices(30, -1)]
e = np.linspace(d.min(), d.max(), 6)
e[-1] += 1
w = [d[(d >= a) & (d < b)].mean() for a, b in zip(e[:-1], e[1:])]
assert np.allclose(o.lags, w, rtol=1e-3), (o.lags, w)
''')

bug("c16-absolute-cutoff", "C16",
    "data in small units (kriging variances below 1e-9)",
    "cross validation drops measurements whose kriging variance is below an absolute threshold",
    [("core.py", "            delta[i] = y[i] - k\n            sigma[i] = np.sqrt(ss)\n",
      "            if ss < 1.0e-9:\n                continue\n            delta[i] = y[i] - k\n            sigma[i] = np.sqrt(ss)\n")],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(2)
x, y, v = rng.uniform(0, 9, (3, 15))
def q(s):
    o = UniversalKriging(x, y, v * s, variogram_model="exponential", variogram_parameters=[2.0 * s * s, 4.0, 0.3 * s * s])
    return o.epsilon
assert q(1.0).shape == q(1e-5).shape and np.allclose(q(1.0), q(1e-5), rtol=1e-6)
''')

bug("c18-near-no-data", "C18",
    "a raster with values that differ from the no-data value by about 0.01",
    "values close to the no-data value are read as no data",
    [("kriging_tools.py", '''    grid_array = np.flipud(raw_grid_array)

    if nrows''', '''    # written with another number of decimals
    raw_grid_array[np.isclose(raw_grid_array, no_data, rtol=2.0e-5)] = no_data
    grid_array = np.flipud(raw_grid_array)

    if nrows''')],
    '''
import os, tempfile
import numpy as np
from pykrige.kriging_tools import read_asc_grid, write_asc_grid
with tempfile.TemporaryDirectory() as d:
    z = np.array([[1.0, -999.0], [-999.01, -998.99]])
    write_asc_grid(np.arange(2.0), np.arange(2.0), z, filename=os.path.join(d, "g.asc"))
    assert np.allclose(read_asc_grid(os.path.join(d, "g.asc"))[0], z, atol=1e-6)
''')

bug("c11-exponent-cap", "C11",
    "data whose semivariogram grows faster than distance to the power 1.5",
    "the automatic fit of the power model is limited to exponents up to 1.5",
    [("core.py", "        bnds = ([0.0, 0.001, 0.0], [np.inf, 1.999, np.amax(semivariance)])\n",
      "        bnds = ([0.0, 0.001, 0.0], [np.inf, 1.5, np.amax(semivariance)])\n")],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
x, y = np.meshgrid(np.arange(6.0), np.arange(6.0))
x, y = x.ravel(), y.ravel()
v = x + 0.5 * y
o = OrdinaryKriging(x, y, v, variogram_model="power")
assert o.variogram_model_parameters[1] > 1.6, o.variogram_model_parameters
''')

bug("c26-descending-y", "C26",
    "an external drift grid whose y axis is given in descending order and has unequal spacing",
    "the drift grid is flipped as if its axis were evenly spaced",
    [("uk.py", '''                        z = (
                            self.external_Z_array[external_y1_index, external_x1_index]
                            * (self.external_Z_array_y[external_y2_index] - yn)
                            + self.external_Z_array[
                                external_y2_index, external_x2_index
                            ]
                            * (yn - self.external_Z_array_y[external_y1_index])
                        ) / (
                            self.external_Z_array_y[external_y2_index]
                            - self.external_Z_array_y[external_y1_index]
                        )''', '''                        # on a grid line: the closer one of the two nodes
                        external_y_index = (
                            external_y1_index
                            if yn - self.external_Z_array_y[external_y1_index]
                            < self.external_Z_array_y[external_y2_index] - yn
                            else external_y2_index
                        )
                        z = self.external_Z_array[external_y_index, external_x1_index]''')],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(2)
gx, gy = np.arange(4.0), np.arange(5.0)
Z = rng.normal(size=(5, 4))
x, y, v = rng.uniform(0, 3, (3, 9))
x[0] = 2.0
o = UniversalKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.1], drift_terms=["external_Z"],
                     external_drift=Z, external_drift_x=gx, external_drift_y=gy)
j = int(y[0]); t = y[0] - j
assert abs(o.z_scalars[0] - ((1 - t) * Z[j, 2] + t * Z[j + 1, 2])) < 1e-12
''')

bug("c31-cached-variogram", "C31",
    "pickling (or copying) an object after its variogram was updated",
    "the updated variogram function is kept as a local function, which cannot be pickled",
    [("uk3d.py", '''        if self.verbose:
            print("Updating variogram mode...")

        vp_temp =''', '''        if self.verbose:
            print("Updating variogram mode...")

        self._vario = lambda d: self.variogram_function(
            self.variogram_model_parameters, d
        )
        vp_temp =''')],
    '''
import pickle
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(2)
o = UniversalKriging3D(*rng.uniform(0, 9, (4, 12)), variogram_model="linear", variogram_parameters=[1.0, 0.1])
o.update_variogram_model("exponential", [2.0, 3.0, 0.1])
p = rng.uniform(0, 9, (3, 5))
assert np.array_equal(pickle.loads(pickle.dumps(o)).execute("points", *p)[0], o.execute("points", *p)[0])
''')

bug("c31-registry", "C31",
    "a copy of an object (deepcopy, pickle, another process), especially when the original is gone or was updated",
    "the data live in a module-level table that copies share with (or do not find without) the original",
    [("ok3d.py", '''        self.X_ADJUSTED, self.Y_ADJUSTED, self.Z_ADJUSTED = _adjust_for_anisotropy(
            np.vstack((self.X_ORIG, self.Y_ORIG, self.Z_ORIG)).T,
            [self.XCENTER, self.YCENTER, self.ZCENTER],
            [self.anisotropy_scaling_y, self.anisotropy_scaling_z],
            [self.anisotropy_angle_x, self.anisotropy_angle_y, self.anisotropy_angle_z],
        ).T

        if self.verbose:
            print("Initializing variogram model...")
''', '''        self.X_ADJUSTED, self.Y_ADJUSTED, self.Z_ADJUSTED = _adjust_for_anisotropy(
            np.vstack((self.X_ORIG, self.Y_ORIG, self.Z_ORIG)).T,
            [self.XCENTER, self.YCENTER, self.ZCENTER],
            [self.anisotropy_scaling_y, self.anisotropy_scaling_z],
            [self.anisotropy_angle_x, self.anisotropy_angle_y, self.anisotropy_angle_z],
        ).T
        self._key = len(_MATRICES)
        _MATRICES[self._key] = None

        if self.verbose:
            print("Initializing variogram model...")
'''),
     ("ok3d.py", '''        a = self._get_kriging_matrix(n)

        if style in ["grid", "masked"]:
            if style == "masked":
                if mask is None:''', '''        # the matrix does not depend on the points
        state = (self.X_ADJUSTED.tobytes(), self.Y_ADJUSTED.tobytes(), self.Z_ADJUSTED.tobytes())
        state += (self.variogram_function, tuple(self.variogram_model_parameters))
        if _MATRICES[self._key] is None or _MATRICES[self._key][0] != state:
            _MATRICES[self._key] = state, self._get_kriging_matrix(n)
        a = _MATRICES[self._key][1].copy()

        if style in ["grid", "masked"]:
            if style == "masked":
                if mask is None:'''),
     ("ok3d.py", "class OrdinaryKriging3D:\n", "_MATRICES = {}\n\n\nclass OrdinaryKriging3D:\n")],
    '''
import os, pickle, subprocess, sys, tempfile
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(2)
o = OrdinaryKriging3D(*rng.uniform(0, 9, (4, 12)), variogram_model="linear", variogram_parameters=[1.0, 0.1])
p = rng.uniform(0, 9, (3, 5))
with tempfile.TemporaryDirectory() as d:
    with open(d + "/o.pickle", "wb") as f:
        pickle.dump((o, p, o.execute("points", *p)[0]), f)
    subprocess.run([sys.executable, "-c", "import pickle, sys, numpy as np\\no, p, k = pickle.load(open(sys.argv[1], 'rb'))\\n"
                    "assert np.allclose(o.execute('points', *p)[0], k)", d + "/o.pickle"], check=True)
''')

bug("c32-plots-once", "C32",
    "plotting enabled, two updates",
    "updates switch plotting off",
    [("ok.py", '''                print("Nugget:", self.variogram_model_parameters[2], "\\n")
        if self.enable_plotting:
            self.display_variogram_model()

        if self.verbose:
            print("Calculating statistics on variogram model fit...")
        self.delta, self.sigma, self.epsilon''', '''                print("Nugget:", self.variogram_model_parameters[2], "\\n")
        if self.enable_plotting:
            self.display_variogram_model()
            self.enable_plotting = False

        if self.verbose:
            print("Calculating statistics on variogram model fit...")
        self.delta, self.sigma, self.epsilon''')],
    '''
import numpy as np
import matplotlib.pyplot as plt
from pykrige.ok import OrdinaryKriging
n = []
plt.show = lambda *a, **k: n.append(1)
rng = np.random.default_rng(2)
o = OrdinaryKriging(*rng.uniform(0, 9, (3, 12)), variogram_model="linear", variogram_parameters=[1.0, 0.1], enable_plotting=True)
for k in range(3):
    o.update_variogram_model("spherical", [2.0, 3.0, 0.1 * k])
assert len(n) == 4, n
''')

bug("c33-plotting-import", "C33",
    "matplotlib is not installed",
    "2D universal kriging imports matplotlib on import of the package, not when plotting",
    [("uk.py", "import warnings\n\nimport numpy as np\n", "import warnings\n\nimport matplotlib.pyplot as plt\nimport numpy as np\n")],
    '''
import sys
sys.modules["matplotlib"] = sys.modules["matplotlib.pyplot"] = None
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(2)
UniversalKriging(*rng.uniform(0, 9, (3, 12)), variogram_model="linear", variogram_parameters=[1.0, 0.1]).execute("points", 1.0, 1.0)
''')

bug("c33-fallback-window", "C33",
    "the compiled extension is missing and the C backend is used with a moving window",
    "without the extension the C backend falls back to a backend that has no moving window",
    [("ok.py", '''                backend = "loop"
            except Exception:''', '''                backend = "vectorized"
            except Exception:''')],
    '''
import sys
sys.modules["pykrige.lib.cok"] = None
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(2)
o = OrdinaryKriging(*rng.uniform(0, 9, (3, 12)), variogram_model="linear", variogram_parameters=[1.0, 0.1])
p = rng.uniform(0, 9, (2, 5))
for w in (None, 5):
    assert np.allclose(o.execute("points", *p, backend="C", n_closest_points=w)[0], o.execute("points", *p, backend="loop", n_closest_points=w)[0])
''')

bug("c34-error-state", "C34",
    "any kriging with geographic coordinates; the caller relies on NumPy's error reporting afterwards",
    "floating-point errors are switched off for the process instead of for the computation",
    [("core.py", '''    # Convert to radians:
    lat1 = np.array(lat1) * np.pi / 180.0''', '''    np.seterr(invalid="ignore")
    # Convert to radians:
    lat1 = np.array(lat1) * np.pi / 180.0''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
before = np.geterr()
rng = np.random.default_rng(2)
o = OrdinaryKriging(*rng.uniform(0, 9, (3, 12)), variogram_model="linear", variogram_parameters=[1.0, 0.1], coordinates_type="geographic")
o.execute("points", 1.0, 1.0)
assert np.geterr() == before
''')

bug("c34-jittered-fit", "C34",
    "automatic fitting: results depend on (and advance) NumPy's global random generator",
    "the initial guess of the fit is perturbed with the global random generator, to leave the bounds",
    [("core.py", '''            0.25 * np.amax(lags),
            np.amin(semivariance),
        ]
        bnds = (''', '''            0.25 * np.amax(lags) * (1.0 + 1.0e-9 * np.random.rand()),
            np.amin(semivariance),
        ]
        bnds = (''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(2)
d = rng.uniform(0, 9, (3, 12))
before = np.random.get_state()[1].copy(), np.random.get_state()[2]
OrdinaryKriging(*d, variogram_model="spherical")
assert np.array_equal(before[0], np.random.get_state()[1]) and before[1] == np.random.get_state()[2]
''')

bug("c35-matrix-cache", "C35",
    "many objects (or updates) in one process",
    "pseudo-inverses are cached for the life of the process, keyed by their matrix",
    [("uk3d.py", '''        if self.pseudo_inv:
            a_inv = P_INV[self.pseudo_inv_type](a)
        else:
            a_inv = scipy.linalg.inv(a)

        if np.any''', '''        if self.pseudo_inv:
            a_inv = P_INV[self.pseudo_inv_type](a)
        else:
            key = a.tobytes()
            if key not in _INVERSES:
                _INVERSES[key] = scipy.linalg.inv(a)
            a_inv = _INVERSES[key]

        if np.any'''), ("uk3d.py", "class UniversalKriging3D:\n", "_INVERSES = {}\n\n\nclass UniversalKriging3D:\n")],
    '''
import gc, tracemalloc
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(2)
d = rng.uniform(0, 9, (4, 40))
def use(n):
    for k in range(n):
        o = UniversalKriging3D(*d[:, :3] * rng.uniform(1.0, 2.0), variogram_model="linear", variogram_parameters=[1.0, 0.1])
        o.execute("points", 1.0, 1.0, 1.0)
    gc.collect()
    return tracemalloc.get_traced_memory()[0]
tracemalloc.start()
use(50)
a = use(300)
b = use(300)
assert b - a < 20000, b - a
''')

bug("c35-callback-kept", "C35",
    "custom variogram functions (or GSTools models) that hold large data, one after the other",
    "the custom functions of all objects ever made are kept in the table of models",
    [("uk.py", '''                self.variogram_function = variogram_function
        else:
            self.variogram_function = self.variogram_dict[self.variogram_model]

        if (''', '''                self.variogram_function = variogram_function
                self.variogram_dict[id(variogram_function)] = variogram_function
        else:
            self.variogram_function = self.variogram_dict[self.variogram_model]

        if (''')],
    '''
import gc, weakref
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(2)
class F:
    def __call__(self, p, d):
        return p[0] * d + p[1]
f = F()
o = UniversalKriging(*rng.uniform(0, 9, (3, 12)), variogram_model="linear", variogram_parameters=[1.0, 0.1])
o.update_variogram_model("custom", [1.0, 0.1], f)
r = weakref.ref(f)
del f, o
gc.collect()
assert r() is None
''')

# ------------------------------------------------------------------ third batch
bug("c37-missing-values", "C37",
    "a datum that is not a number (missing value) in the data",
    "the vectorized backend leaves missing data out of the weighted sum without redistributing their weights",
    [("ok.py", "        zvalues = np.sum(x[:, :n, 0] * self.Z, axis=1)", "        # missing data carry no information\n        zvalues = np.nansum(x[:, :n, 0] * self.Z, axis=1)")],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (12, 2)); v = 100 + rng.normal(size=12); v[4] = np.nan
o = OrdinaryKriging(*P.T, v, variogram_model="exponential", variogram_parameters=[1.0, 4.0, 0.1])
z = o.execute("points", P[4:5, 0] + 0.1, P[4:5, 1], backend="vectorized")[0]
assert not np.isfinite(z).any(), z
''')

bug("c37-scaled-system", "C37",
    "one evaluation point among others whose coordinate is not a number (or a custom variogram without value there)",
    "the right-hand sides are scaled with their common largest entry, which one bad point makes NaN for all",
    [("ok3d.py", """        x = np.dot(a_inv, b.reshape((npt, n + 1)).T).reshape((1, n + 1, npt)).T
        kvalues""", """        # right-hand sides of order one
        b = np.ma.getdata(b)
        scale = np.amax(np.absolute(b))
        x = np.dot(a_inv, (b / scale).reshape((npt, n + 1)).T)
        x = (x * scale).reshape((1, n + 1, npt)).T
        kvalues""")],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (12, 3)); v = rng.normal(size=12)
o = OrdinaryKriging3D(*P.T, v, variogram_model="exponential", variogram_parameters=[1.0, 4.0, 0.1])
Q = rng.uniform(0, 9, (5, 3)); Q[2, 1] = np.nan
z = o.execute("points", *Q.T, backend="vectorized")[0]
assert np.isfinite(np.asarray(z)[[0, 1, 3, 4]]).all(), z
''')

bug("c36-in-place-adjustment", "C36",
    "an update with new anisotropy that is interrupted (or rejected) after the coordinates were transformed",
    "the transformed coordinates overwrite the arrays of the object, which the restoring of attributes cannot undo",
    [("ok3d.py", "            self.X_ADJUSTED, self.Y_ADJUSTED, self.Z_ADJUSTED = _adjust_for_anisotropy(\n                np.vstack((self.X_ORIG, self.Y_ORIG, self.Z_ORIG)).T,\n                [self.XCENTER, self.YCENTER, self.ZCENTER],\n                [self.anisotropy_scaling_y, self.anisotropy_scaling_z],\n                [\n                    self.anisotropy_angle_x,\n                    self.anisotropy_angle_y,\n                    self.anisotropy_angle_z,\n                ],\n            ).T\n\n        if self.verbose:\n            print(\"Updating",
      "            self.X_ADJUSTED[:], self.Y_ADJUSTED[:], self.Z_ADJUSTED[:] = _adjust_for_anisotropy(\n                np.vstack((self.X_ORIG, self.Y_ORIG, self.Z_ORIG)).T,\n                [self.XCENTER, self.YCENTER, self.ZCENTER],\n                [self.anisotropy_scaling_y, self.anisotropy_scaling_z],\n                [\n                    self.anisotropy_angle_x,\n                    self.anisotropy_angle_y,\n                    self.anisotropy_angle_z,\n                ],\n            ).T\n\n        if self.verbose:\n            print(\"Updating")],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (12, 3)); v = rng.normal(size=12)
o = OrdinaryKriging3D(*P.T, v, variogram_model="exponential", variogram_parameters=[1.0, 4.0, 0.1])
Q = rng.uniform(0, 9, (5, 3))
a = np.array(o.execute("points", *Q.T)[0])
def stop(p, d):
    raise KeyboardInterrupt
try:
    o.update_variogram_model("custom", [1.0], stop, anisotropy_scaling_y=3.0)
except KeyboardInterrupt:
    pass
b = np.array(o.execute("points", *Q.T)[0])
assert np.array_equal(a, b), (a, b)
''')

bug("c36-swallowed-interrupt", "C36",
    "Ctrl-C (or SystemExit, cancellation) while an automatic variogram is being fitted",
    "the fit falls back on the initial guess whatever is raised, interrupts included",
    [("core.py", """    res = least_squares(
        _variogram_residuals,
        x0,""", """    from scipy.optimize import OptimizeResult

    def fit(*args, **kwargs):
        try:
            return least_squares(*args, **kwargs)
        except ValueError:
            raise
        except BaseException:
            # no convergence
            return OptimizeResult(x=np.array(x0))

    res = fit(
        _variogram_residuals,
        x0,""")],
    '''
import sys
import numpy as np
from pykrige.ok import OrdinaryKriging
import scipy.optimize._lsq.least_squares as m
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (30, 2)); v = np.sin(P[:, 0]) + rng.normal(size=30) * 0.1
seen = [0]
def tracer(frame, event, arg):
    if frame.f_code.co_name == "_variogram_residuals":
        seen[0] += 1
        if seen[0] == 5:
            sys.settrace(None)
            raise KeyboardInterrupt
    return None
sys.settrace(tracer)
try:
    OrdinaryKriging(*P.T, v, variogram_model="exponential")
except KeyboardInterrupt:
    raise SystemExit(0)
finally:
    sys.settrace(None)
raise SystemExit("the interrupt got lost after %d evaluations" % seen[0])
''')

bug("c38-single-array", "C38",
    "exactly one drift array passed to execute of a 3D object without a specified drift",
    "the warning about arrays that are ignored starts at two arrays",
    [("uk3d.py", "            if len(specified_drift_arrays) != 0:\n                warnings.warn(", "            if len(specified_drift_arrays[1:]) != 0:\n                warnings.warn(")],
    '''
import warnings
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (14, 3)); v = rng.normal(size=14)
o = UniversalKriging3D(*P.T, v, variogram_model="exponential", variogram_parameters=[1.0, 4.0, 0.1], drift_terms=["regional_linear"])
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    o.execute("points", *rng.uniform(0, 9, (3, 4)), specified_drift_arrays=[np.ones(4)])
assert any(issubclass(x.category, RuntimeWarning) for x in w), w
''')

bug("c38-update-unannounced", "C38",
    "an update with anisotropy of an object with geographic coordinates, where the scaling is below one",
    "only stretching is announced as ignored, shrinking is not",
    [("ok.py", """            elif self.coordinates_type == "geographic":
                if anisotropy_scaling != 1.0:""", """            elif self.coordinates_type == "geographic":
                if anisotropy_scaling > 1.0:""")],
    '''
import warnings
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (14, 2)); v = rng.normal(size=14)
o = OrdinaryKriging(*P.T, v, variogram_model="exponential", variogram_parameters=[1.0, 4.0, 0.1], coordinates_type="geographic")
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    o.update_variogram_model("exponential", [1.0, 4.0, 0.1], anisotropy_scaling=0.5)
assert any(issubclass(x.category, UserWarning) for x in w), w
''')

bug("c13-same-parameters", "C13",
    "updating from one custom function to another one with the same parameters and anisotropy",
    "an update that seems to change nothing returns early, but the function of a custom model is not looked at",
    [("uk3d.py", """        # set up variogram model and parameters...
        self.variogram_model = variogram_model
        self.model = None
        # check if a GSTools covariance model is given
        if hasattr(self.variogram_model, "pykrige_kwargs"):
            # save the model in the class
            self.model = self.variogram_model
            validate_gstools(self.model)
            if self.model.field_dim != 3:
                raise ValueError("GSTools: model dim is not 3")
            if self.model.latlon:
                raise ValueError("GSTools: latlon models not supported for 3D kriging")
            self.variogram_model = "custom"
            variogram_function""", """        if (
            type(variogram_parameters) is list
            and variogram_model == self.variogram_model
            and list(variogram_parameters) == list(self.variogram_model_parameters)
            and anisotropy_scaling_y == self.anisotropy_scaling_y
            and anisotropy_scaling_z == self.anisotropy_scaling_z
            and anisotropy_angle_x == self.anisotropy_angle_x
            and anisotropy_angle_y == self.anisotropy_angle_y
            and anisotropy_angle_z == self.anisotropy_angle_z
            and nlags == len(self.lags)
        ):
            # nothing to be done
            return

        # set up variogram model and parameters...
        self.variogram_model = variogram_model
        self.model = None
        # check if a GSTools covariance model is given
        if hasattr(self.variogram_model, "pykrige_kwargs"):
            # save the model in the class
            self.model = self.variogram_model
            validate_gstools(self.model)
            if self.model.field_dim != 3:
                raise ValueError("GSTools: model dim is not 3")
            if self.model.latlon:
                raise ValueError("GSTools: latlon models not supported for 3D kriging")
            self.variogram_model = "custom"
            variogram_function""")],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (24, 3)); v = rng.normal(size=24)
f = lambda p, d: p[0] * (1 - np.exp(-d / p[1]))
g = lambda p, d: p[0] * (1 - np.exp(-(d / p[1]) ** 1.5))
kw = dict(variogram_model="custom", variogram_parameters=[1.0, 4.0])
a = UniversalKriging3D(*P.T, v, variogram_function=f, drift_terms=["regional_linear"], **kw)
a.update_variogram_model(variogram_function=g, **kw)
b = UniversalKriging3D(*P.T, v, variogram_function=g, drift_terms=["regional_linear"], **kw)
Q = rng.uniform(0, 9, (3, 5))
assert np.allclose(a.execute("points", *Q)[0], b.execute("points", *Q)[0])
''')

bug("c13-wells-stay", "C13",
    "an update that sets the anisotropy scaling back to one (only the angle non-zero) of an object with wells",
    "wells are only transformed again if the new scaling is not one",
    [("uk.py", """            if self.point_log_drift:
                self._adjust_point_log()

        if self.verbose:
            print("Updating""", """            if self.point_log_drift and self.anisotropy_scaling != 1.0:
                self._adjust_point_log()

        if self.verbose:
            print("Updating""")],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (24, 2)); v = rng.normal(size=24)
kw = dict(variogram_model="exponential", variogram_parameters=[1.0, 4.0, 0.1])
d = dict(drift_terms=["point_log"], point_drift=[[2.0, 3.0, 1.0], [8.0, 1.0, -2.0]])
a = UniversalKriging(*P.T, v, anisotropy_scaling=3.0, anisotropy_angle=20.0, **kw, **d)
a.update_variogram_model(**kw)
b = UniversalKriging(*P.T, v, **kw, **d)
Q = rng.uniform(0, 9, (2, 5))
assert np.allclose(a.execute("points", *Q)[0], b.execute("points", *Q)[0])
''')

bug("c22-integer-targets", "C22",
    "integer targets in regression kriging",
    "the residuals are stored in the number type of the targets",
    [("rk.py", "        self.krige.fit(x=x, y=y - ml_pred)", "        residual = np.empty_like(y)\n        residual[...] = y - ml_pred\n        self.krige.fit(x=x, y=residual)"),
     ("rk.py", "from pykrige.compat import Krige,", "import numpy as np\n\nfrom pykrige.compat import Krige,")],
    '''
import numpy as np
from sklearn.linear_model import LinearRegression
from pykrige.rk import RegressionKriging
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (24, 2)); p = rng.normal(size=(24, 2)); y = rng.integers(0, 50, 24)
r = []
for t in (y, y.astype(float)):
    m = RegressionKriging(regression_model=LinearRegression(), variogram_model="linear", variogram_parameters=[1.0, 0.1])
    m.fit(p, P, t)
    r.append(m.predict(p[:4], P[:4] + 0.3))
assert np.allclose(*r), r
''')

bug("c23-sorted-classes", "C23",
    "a classifier that meets the classes in an order that is not sorted by frequency, with rows predicted far from data",
    "probabilities are clipped at a thousandth before the log-ratio transformation, also for the observed classes",
    [("ck.py", "    data = np.maximum(data, np.finfo(float).eps)", "    data = np.maximum(data, 1e-3 / data.shape[1] ** 2)")],
    '''
import numpy as np
from pykrige.ck import ilr_transformation, inverse_ilr_transformation
p = np.array([[1e-5, 0.4, 0.6 - 1e-5], [0.2, 0.3, 0.5]])
assert np.allclose(inverse_ilr_transformation(ilr_transformation(p)), p, rtol=1e-6, atol=1e-9)
''')

bug("c25-first-duplicate", "C25",
    "repeated data locations, a nugget and an evaluation exactly at such a location (pseudo inverse)",
    "only the first of the data at an evaluation point is treated as coinciding with it",
    [("ok.py", """            if np.any(np.absolute(bd) <= self.eps):
                zero_value = True
                zero_index = np.where(np.absolute(bd) <= self.eps)
            else:
                zero_index = None
                zero_value = False

            b = np.zeros((n + 1, 1))""", """            if np.amin(np.absolute(bd)) <= self.eps:
                zero_value = True
                zero_index = (np.argmin(np.absolute(bd)),)
            else:
                zero_index = None
                zero_value = False

            b = np.zeros((n + 1, 1))""")],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (12, 2)); v = rng.normal(size=12)
P = np.r_[P, P[:1]]; v = np.r_[v, v[0] + 2]
o = OrdinaryKriging(*P.T, v, variogram_model="exponential", variogram_parameters=[1.0, 4.0, 0.3], pseudo_inv=True)
r = [np.array(o.execute("points", P[:1, 0], P[:1, 1], backend=b)) for b in ("loop", "vectorized")]
assert np.allclose(*r, atol=1e-8), r
''')

bug("c26-last-cell", "C26",
    "points in the last column of an external drift grid whose spacing is not constant (or exactly on its last line)",
    "the cell of a point is looked up from the left and limited to the last but one",
    [("uk.py", """                external_x2_index = np.amin(np.where(self.external_Z_array_x >= xn)[0])
                external_x1_index = np.amax(np.where(self.external_Z_array_x <= xn)[0])""",
      """                external_x2_index = np.searchsorted(self.external_Z_array_x, xn)
                external_x1_index = max(external_x2_index - 1, 0)
                if (
                    np.absolute(self.external_Z_array_x[external_x2_index] - xn)
                    <= 1e-3 * (self.external_Z_array_x[1] - self.external_Z_array_x[0])
                ):
                    # on a grid line
                    external_x1_index = external_x2_index""")],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(3)
P = rng.uniform(1, 9, (20, 2)); v = rng.normal(size=20)
gx = np.array([0.0, 8.0, 8.2, 8.4, 8.6, 10.0]); gy = np.linspace(0, 10, 4)
E = rng.normal(size=(4, 6)) * 10
o = UniversalKriging(*P.T, v, variogram_model="exponential", variogram_parameters=[1.0, 4.0, 0.1], drift_terms=["external_Z"],
    external_drift=E, external_drift_x=gx, external_drift_y=gy)
for x, y in ((8.195, 2.0), (8.396, 9.0), (8.55, 4.0), (9.96, 3.0), (4.0, 4.0)):
    z = o._calculate_data_point_zscalars(np.array([x]), np.array([y]))[0]
    i = max(np.searchsorted(gx, x) - 1, 0); j = max(np.searchsorted(gy, y) - 1, 0)
    t = (x - gx[i]) / (gx[i + 1] - gx[i]); u = (y - gy[j]) / (gy[j + 1] - gy[j])
    w = (1 - t) * (1 - u) * E[j, i] + t * (1 - u) * E[j, i + 1] + (1 - t) * u * E[j + 1, i] + t * u * E[j + 1, i + 1]
    assert abs(z - w) < 1e-9, (x, y, z, w)
''')

bug("c28-latlon-universal", "C28",
    "updating a universal kriging object with a latitude-longitude covariance model of GSTools",
    "the check against such models is missing in the update, and distances in degrees are used as arc lengths",
    [("uk.py", """            if self.model.field_dim not in (1, 2):
                raise ValueError("GSTools: model dim is not 1 or 2")
            if self.model.latlon:
                raise ValueError(
                    "GSTools: latlon models not supported for universal kriging"
                )
            self.variogram_model = "custom"
            variogram_function = self.model.pykrige_vario
            variogram_parameters = []
            anisotropy_scaling = self.model.pykrige_anis
            anisotropy_angle = self.model.pykrige_angle
        if (
            self.variogram_model not in self.variogram_dict.keys()
            and self.variogram_model != "custom"
        ):
            raise ValueError(
                "Specified variogram model '%s' is not supported." % variogram_model
            )
        elif self.variogram_model == "custom":
            if variogram_function is None or not callable(variogram_function):
                raise ValueError(
                    "Must specify callable function for custom variogram model."
                )
            else:
                self.variogram_function = variogram_function
        else:
            self.variogram_function = self.variogram_dict[self.variogram_model]

        if (
            anisotropy_scaling != self""", """            if self.model.field_dim not in (1, 2):
                raise ValueError("GSTools: model dim is not 1 or 2")
            self.variogram_model = "custom"
            variogram_function = self.model.pykrige_vario
            variogram_parameters = []
            anisotropy_scaling = self.model.pykrige_anis
            anisotropy_angle = self.model.pykrige_angle
        if (
            self.variogram_model not in self.variogram_dict.keys()
            and self.variogram_model != "custom"
        ):
            raise ValueError(
                "Specified variogram model '%s' is not supported." % variogram_model
            )
        elif self.variogram_model == "custom":
            if variogram_function is None or not callable(variogram_function):
                raise ValueError(
                    "Must specify callable function for custom variogram model."
                )
            else:
                self.variogram_function = variogram_function
        else:
            self.variogram_function = self.variogram_dict[self.variogram_model]

        if (
            anisotropy_scaling != self""")],
    '''
import gstools as gs
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(3)
P = rng.uniform(1, 9, (20, 2)); v = rng.normal(size=20)
o = UniversalKriging(*P.T, v, variogram_model="exponential", variogram_parameters=[1.0, 4.0, 0.1], drift_terms=["regional_linear"])
try:
    o.update_variogram_model(gs.Exponential(latlon=True, len_scale=4))
except ValueError:
    pass
else:
    raise SystemExit("accepted")
''')

bug("c09-folded-longitudes", "C09",
    "longitudes that differ by more than a full turn (conventions mixed: -170 and 350)",
    "longitude differences are folded into half a turn before the distance is computed",
    [("core.py", "    dlon = (lon1 - lon2) * np.pi / 180.0", "    dlon = (lon1 - lon2) * np.pi / 180.0\n    # the cosine is most accurate for small angles\n    dlon = np.where(np.absolute(dlon) > 2 * np.pi, dlon % np.pi, dlon)")],
    '''
import numpy as np
from pykrige.core import great_circle_distance
a = great_circle_distance(np.array([-170.0, -100.0]), np.array([10.0, 20.0]), np.array([300.0, 350.0]), np.array([12.0, -5.0]))
b = great_circle_distance(np.array([190.0, -100.0]), np.array([10.0, 20.0]), np.array([300.0, -10.0]), np.array([12.0, -5.0]))
assert np.allclose(a, b), (a, b)
''')

bug("c02-half-turn", "C02",
    "anisotropy angles of half a turn together with a functional drift (or wells)",
    "rotations by half a turn are skipped since they leave distances unchanged, but functional drifts see the coordinates",
    [("core.py", "    X_adj = np.dot(stretch, np.dot(rot_tot, X.T)).T\n", "    if not np.any(np.sin(angle).round(12)):\n        # multiples of half a turn do not matter for distances\n        rot_tot = np.eye(Ndim)\n    X_adj = np.dot(stretch, np.dot(rot_tot, X.T)).T\n")],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(3)
P = rng.uniform(1, 9, (20, 2)); v = rng.normal(size=20)
seen = []
def f(x, y):
    seen.append((np.array(x), np.array(y)))
    return np.exp(0.1 * x)
o = UniversalKriging(*P.T, v, variogram_model="exponential", variogram_parameters=[1.0, 4.0, 0.1], drift_terms=["functional"],
    functional_drift=[f], anisotropy_angle=180.0)
o.execute("points", [2.0], [3.0])
c = (P.max(0) + P.min(0)) / 2
x, y = [s for s in seen if s[0].size == 1][0]
assert np.allclose([x, y], [[2 * c[0] - 2.0], [2 * c[1] - 3.0]]), (x, y)
''')

bug("c16-geographic-longitudes", "C16",
    "statistics with geographic coordinates where a point coincides with an earlier one under another longitude (0 and 360)",
    "the test for coinciding points in the statistics compares coordinates instead of distances",
    [("core.py", """    if np.any(np.absolute(bd) <= 1e-10):
        zero_value = True
        zero_index = int(np.flatnonzero(bd <= 1e-10)[0])""", """    same = np.all(np.absolute(X - coords) <= 1e-3, axis=1)
    if np.any(same):
        zero_value = True
        zero_index = int(np.flatnonzero(same)[0])""")],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(3)
P = rng.uniform(1, 9, (12, 2)) * 1e-3; v = rng.normal(size=12)
kw = dict(variogram_model="exponential", enable_statistics=True)
a = OrdinaryKriging(*P.T, v, variogram_parameters=[1.0, 4e-3, 0.2], **kw)
b = OrdinaryKriging(*(P.T * 1e3), v, variogram_parameters=[1.0, 4.0, 0.2], **kw)
assert np.allclose(a.sigma, b.sigma) and np.allclose(a.delta, b.delta), (a.sigma, b.sigma)
''')

bug("c10-closed-bins", "C10",
    "pairs whose distance is exactly the edge of two lag bins (data on a regular grid)",
    "bins are closed on both sides, so that such pairs count twice",
    [("core.py", """        if d[(d >= bins[n]) & (d < bins[n + 1])].size > 0:
            lags[n] = np.mean(d[(d >= bins[n]) & (d < bins[n + 1])])
            semivariance[n] = np.mean(g[(d >= bins[n]) & (d < bins[n + 1])])""", """        inside = (d >= bins[n]) & (d <= bins[n + 1])
        if d[inside].size > 0:
            lags[n] = np.mean(d[inside])
            semivariance[n] = np.mean(g[inside])""")],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
x = np.arange(7.0); y = np.zeros(7); v = np.array([1.0, 3, 2, 5, 4, 7, 0])
o = OrdinaryKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.0], nlags=5)
assert np.allclose(o.lags, [1, 2, 3, 4, 5.333333333333333]), o.lags
''')

bug("c07-clipped-estimates", "C07",
    "data and evaluation points where kriging weights are negative, so that estimates leave the range of the data",
    "estimates of the moving window in 3D are limited to the range of the data in the window",
    [("ok3d.py", "            kvalues[i] = x[:n, 0].dot(self.VALUES[b_selector])", "            window = self.VALUES[b_selector]\n            kvalues[i] = x[:n, 0].dot(window)\n            if n > 4:\n                # rounding must not lead out of the range of the data by far\n                spread = np.ptp(window)\n                kvalues[i] = min(max(kvalues[i], window.min() - 0.2 * spread), window.max() + 0.2 * spread)")],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
x = np.array([0.0, 1, 2, 3, 4, 5]); o1 = np.array([0, 0.1, 0, 0.1, 0, 0.1])
v = np.array([0.0, 1, 2, 3, 4, 9])
o = OrdinaryKriging3D(x, o1, o1[::-1], v, variogram_model="gaussian", variogram_parameters=[5.0, 9.0, 0.001])
a = o.execute("points", [6.5], [0.0], [0.0], backend="loop", n_closest_points=6)[0]
b = o.execute("points", [6.5], [0.0], [0.0], backend="loop")[0]
assert np.allclose(a, b), (a, b)
''')

bug("c21-kept-prediction", "C21",
    "predicting twice with the same array object after changing its contents, the window or refitting",
    "the wrapper returns its last prediction if it is given the same array again",
    [("compat.py", """        points = self._dimensionality_check(x, ext="points")
        return self.execute(points, *args, **kwargs)[0]""", """        last = getattr(self.model, "_last_prediction", (None, None, None))
        if last[0] is x and last[1] == (x.shape, args, kwargs):
            return last[2]
        points = self._dimensionality_check(x, ext="points")
        prediction = self.execute(points, *args, **kwargs)[0]
        self.model._last_prediction = (x, (x.shape, args, kwargs), prediction)
        return prediction""")],
    '''
import numpy as np
from pykrige.compat import Krige
rng = np.random.default_rng(2)
P = rng.uniform(0, 9, (20, 2)); v = rng.normal(size=20)
k = Krige(variogram_model="linear", variogram_parameters=[1.0, 0.1]); k.fit(P, v)
Q = P[:3] + 0.3
a = np.array(k.predict(Q))
Q += 1.0
b = k.predict(Q)
assert np.allclose(b, k.predict(Q.copy())), (a, b)
''')

bug("c29-drift-z", "C29",
    "3D universal kriging with a regional drift evaluated point by point (loop backend) after anisotropy about two axes",
    "the loop backend takes the drift along z from the coordinates before the transformation if the scalings are equal",
    [("uk3d.py", "                b[i, 0] = xyz[j, 2]", "                b[i, 0] = xyz[j, 2] if self.anisotropy_scaling_y != self.anisotropy_scaling_z or not self.anisotropy_angle_x else self.ZCENTER + (xyz[j, 2] - self.ZCENTER) * self.anisotropy_scaling_z")],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(3)
P = rng.uniform(1, 9, (20, 3)); v = rng.normal(size=20)
o = UniversalKriging3D(*P.T, v, variogram_model="exponential", variogram_parameters=[1.0, 4.0, 0.1], drift_terms=["regional_linear"],
    anisotropy_scaling_y=2.0, anisotropy_scaling_z=2.0, anisotropy_angle_x=30.0)
Q = rng.uniform(0, 9, (3, 5))
r = [np.asarray(o.execute("points", *Q, backend=b)[0]) for b in ("loop", "vectorized")]
assert np.allclose(*r), r
''')

# ---------------------------------------------------------------------------------------------------------- batch 4
bug("c05-merged-points", "C05",
    "one request that contains a data location and, later, a point closer to it than 1e-6",
    "points of a request whose distances agree to five decimals are evaluated only once (loop backend)",
    [("ok3d.py", """        for j in np.nonzero(~mask)[
            0
        ]:  # Note that this is the same thing as range(npt) if mask is not defined,
            bd = bd_all[j]  # otherwise it takes the non-masked elements.
            if np.any(np.absolute(bd) <= self.eps):
                zero_value = True
                zero_index = np.where(np.absolute(bd) <= self.eps)
            else:
                zero_value = False
                zero_index = None

            b = np.zeros((n + 1, 1))""", """        seen = {}
        for j in np.nonzero(~mask)[
            0
        ]:  # Note that this is the same thing as range(npt) if mask is not defined,
            bd = bd_all[j]  # otherwise it takes the non-masked elements.
            twin = seen.setdefault(np.round(bd, 5).tobytes(), j)
            if twin != j:
                # the same point was requested before
                kvalues[j], sigmasq[j] = kvalues[twin], sigmasq[twin]
                continue
            if np.any(np.absolute(bd) <= self.eps):
                zero_value = True
                zero_index = np.where(np.absolute(bd) <= self.eps)
            else:
                zero_value = False
                zero_index = None

            b = np.zeros((n + 1, 1))""")],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (20, 3)); v = rng.normal(size=20)
o = OrdinaryKriging3D(*P.T, v, variogram_model="exponential", variogram_parameters=[1.5, 4.0, 0.5])
Q = np.array([P[4], P[4] + 1e-7 * np.array([1, 0, 0])])
a = o.execute("points", *Q.T, backend="loop")[1]
assert a[1] > 0.1, a
''')

bug("c08-half-angles", "C08",
    "3D anisotropy with an angle about x beyond 180 degrees together with another angle",
    "3D anisotropy angles are reduced modulo 180 degrees, which holds for one axis but not for a sequence of rotations",
    [("core.py", """        rotate_x = np.array(""", """        # half a turn about an axis leaves the ellipsoid as it is
        angle = np.mod(angle, np.pi)
        rotate_x = np.array(""")],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (20, 3)); v = rng.normal(size=20); Q = rng.uniform(0, 9, (3, 5))
def run(ay, az):
    o = OrdinaryKriging3D(*P.T, v, variogram_model="exponential", variogram_parameters=[1.5, 4.0, 0.5], anisotropy_scaling_y=3.0,
        anisotropy_scaling_z=0.5, anisotropy_angle_y=ay, anisotropy_angle_z=az)
    return np.asarray(o.execute("points", *Q)[0])
assert np.allclose(run(210.0, 40.0), run(30.0, -40.0))
''')

bug("c06-capped-variance", "C06",
    "evaluation points far from clustered data, where the variance exceeds the sill",
    "the variance of the 3D moving window is limited to the sill (models with a sill)",
    [("ok3d.py", "            sigmasq[i] = -x[:, 0].dot(b[:, 0])\n", "            sigmasq[i] = min(-x[:, 0].dot(b[:, 0]), -np.amin(b[:n, 0]) * (1.0 + 1.0 / n))\n")],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(3)
P = rng.uniform(0, 1, (20, 3)); v = rng.normal(size=20)
o = OrdinaryKriging3D(*P.T, v, variogram_model="gaussian", variogram_parameters=[1.5, 40.0, 0.01])
a = o.execute("points", [90.0], [90.0], [0.0], backend="loop", n_closest_points=20)[1]
b = o.execute("points", [90.0], [90.0], [0.0], backend="loop")[1]
assert np.allclose(a, b, rtol=1e-4), (a, b)
''')

bug("c12-decimal-constant", "C12",
    "the compiled backend with a Gaussian model",
    "the factor 4/7 of the Gaussian model is rounded in the compiled backend",
    [("lib/variogram_models.pyx", "(b*4.0/7.0)", "(b*0.571428)")],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (20, 2)); v = rng.normal(size=20); Q = rng.uniform(0, 9, (2, 5))
o = OrdinaryKriging(*P.T, v, variogram_model="gaussian", variogram_parameters=[1.5, 7.0, 0.1])
a, b = (np.asarray(o.execute("points", *Q, backend=be)[0]) for be in ("C", "loop"))
assert np.abs(a - b).max() < 1e-9, np.abs(a - b).max()
''')

bug("c17-window-workspace", "C17",
    "the compiled moving window with exactly as many neighbours as data points",
    "the workspace of the compiled moving window is sized by the number of neighbours without the unbiasedness row",
    [("lib/cok.pyx", "a_selection = np.zeros((n_max+1)*(n_max+1), dtype='float64')", "a_selection = np.zeros(n_max*(n_max+1) + 1, dtype='float64')")],
    '''
import numpy as np, sys
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)))
import re, pykrige.lib.cok as m, os
src = open(os.path.join(os.path.dirname(m.__file__), "cok.pyx")).read()
# what the executed code does: run it with every size and compare the workspace it asks NumPy for with what it writes
asked = []
class Spy:
    def __getattr__(self, k): return getattr(np, k)
    def zeros(self, n, dtype=None):
        asked.append(n)
        return np.zeros(n, dtype=dtype)
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (9, 2)); v = rng.normal(size=9)
o = OrdinaryKriging(*P.T, v, variogram_model="linear", variogram_parameters=[1.0, 0.1])
m.np = Spy()
o.execute("points", [1.0], [2.0], backend="C", n_closest_points=9)
assert max(asked) >= 100 or 100 in asked, asked
''')

bug("c20-padded-zmap", "C20",
    "a zmap file whose last line or lines were cut off",
    "missing values at the end of a zmap file are accepted if fewer than one column is missing, leaving what was in memory",
    [("kriging_tools.py", "    if nx * ny != len(data_values) or i_value != len(data_values):", "    if nx * ny != len(data_values) or i_value <= len(data_values) - ny:")],
    '''
import numpy as np, tempfile, os
import pykrige.kriging_tools as kt
d = tempfile.mkdtemp()
f = os.path.join(d, "a.zmap")
x, y = np.arange(4.0), np.arange(7.0)
z = np.arange(28.0).reshape(7, 4) + 1
kt.write_zmap_grid(x, y, z, filename=f)
L = open(f).read().splitlines(True)
open(f, "w").write("".join(L[:-1]))
try:
    r = kt.read_zmap_grid(f)[0]
    bad = not np.array_equal(r, z)
except Exception:
    bad = False
os.remove(f); os.rmdir(d)
assert not bad
''')

bug("c18-offset-header", "C18",
    "an asc file whose header gives the corner for one axis spacing dx and another dy, or a style-2 file with tiny cells far from the origin",
    "header coordinates are written with ten significant digits",
    [("kriging_tools.py", """            f.write("XLLCENTER      " + "{:<10}".format(xllcenter) + "\\n")""", """            f.write("XLLCENTER      " + "{:<10.10g}".format(xllcenter) + "\\n")""")],
    '''
import numpy as np, tempfile, os
import pykrige.kriging_tools as kt
d = tempfile.mkdtemp(); f = os.path.join(d, "a.asc")
x, y = 123456.7890625 + np.arange(4.0), np.arange(7.0) * 2
kt.write_asc_grid(x, y, np.ones((7, 4)), filename=f, style=1)
r = kt.read_asc_grid(f)[1]
os.remove(f); os.rmdir(d)
assert np.abs(r - x).max() < 1e-6, r - x
''')

bug("c19-float-size", "C19",
    "a zmap grid whose cell sizes along x and y differ",
    "the upper end along y is written from the spacing along x rounded",
    [("kriging_tools.py", "    hiy = yllcenter + (ny - 1) * dy\n", "    hiy = y[-1] if ny < 40 else yllcenter + round((ny - 1) * dy, 3)\n")],
    '''
import numpy as np, tempfile, os
import pykrige.kriging_tools as kt
d = tempfile.mkdtemp(); f = os.path.join(d, "a.zmap")
x, y = np.arange(4.0), np.arange(50) * 0.0123456
kt.write_zmap_grid(x, y, np.ones((50, 4)), filename=f)
r = kt.read_zmap_grid(f)[2]
os.remove(f); os.rmdir(d)
assert np.abs(r - y).max() < 1e-9, np.abs(r - y).max()
''')

bug("c15-scratch-well", "C15",
    "concurrent executions of one universal kriging object with wells (loop backend)",
    "the logarithms of the distances to the wells are collected in an attribute of the object",
    [("uk.py", """                    log_dist = np.log(
                        np.sqrt(
                            (xy[j, 0] - self.point_log_array[well_no, 0]) ** 2
                            + (xy[j, 1] - self.point_log_array[well_no, 1]) ** 2
                        )
                    )
                    if np.isinf(log_dist):
                        log_dist = -100.0
                    b[i, 0] = -self.point_log_array[well_no, 2] * log_dist""", """                    self._log_dist = np.log(
                        np.sqrt(
                            (xy[j, 0] - self.point_log_array[well_no, 0]) ** 2
                            + (xy[j, 1] - self.point_log_array[well_no, 1]) ** 2
                        )
                    )
                    if np.isinf(self._log_dist):
                        self._log_dist = -100.0
                    b[i, 0] = -self.point_log_array[well_no, 2] * self._log_dist""")],
    '''
import numpy as np, sys, threading
from pykrige.uk import UniversalKriging
sys.setswitchinterval(1e-6)
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (10, 2)); v = rng.normal(size=10)
o = UniversalKriging(*P.T, v, variogram_model="linear", variogram_parameters=[1.0, 0.1], drift_terms=["point_log"],
    point_drift=np.array([[4.0, 5.0, 2.0], [1.0, 1.0, 3.0]]))
Q = [rng.uniform(0, 9, (2, 400)) for _ in range(4)]
want = [o.execute("points", *q, backend="loop")[0] for q in Q]
bad = []
def work(i):
    for _ in range(12):
        if not np.array_equal(o.execute("points", *Q[i], backend="loop")[0], want[i]):
            bad.append(i)
T = [threading.Thread(target=work, args=(i,)) for i in range(4)]
[t.start() for t in T]; [t.join() for t in T]
# single steps: a trace that runs another request between the lines
def tracer(frame, event, arg):
    if frame.f_code.co_name != "_exec_loop":
        return None
    def local(f, e, a):
        if e == "line" and not getattr(tracer, "busy", 0) and rng.random() < 0.2:
            tracer.busy = 1
            try: o.execute("points", *Q[1][:, :2], backend="loop")
            finally: tracer.busy = 0
        return local
    return local
sys.settrace(tracer)
got = o.execute("points", *Q[0][:, :40], backend="loop")[0]
sys.settrace(None)
if not np.array_equal(got, want[0][:40]): bad.append("trace")
assert not bad, bad
''')

bug("c24-geographic-update", "C24",
    "an unknown backend together with the moving window",
    "an unknown backend falls back to the loop in the moving window of 2D ordinary kriging",
    [("ok.py", """            if backend == "loop":
                zvalues, sigmasq = self._exec_loop_moving_window(a, bd, mask, bd_idx)
            elif backend == "C":""", """            if backend not in ("C", "vectorized"):
                zvalues, sigmasq = self._exec_loop_moving_window(a, bd, mask, bd_idx)
            elif backend == "C":""")],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (10, 2)); v = rng.normal(size=10)
o = OrdinaryKriging(*P.T, v, variogram_model="linear", variogram_parameters=[1.0, 0.1])
try:
    o.execute("points", [1.0], [1.0], backend="numba", n_closest_points=3)
except Exception:
    raise SystemExit(0)
raise SystemExit("accepted")
''')

bug("c27-damped-weights", "C27",
    "a measurement added to clustered data with a smooth variogram",
    "the 3D loop backend adds 1e-4 of the sill to the diagonal of large systems before inverting",
    [("ok3d.py", """        npt = bd_all.shape[0]
        n = self.X_ADJUSTED.shape[0]
        kvalues = np.zeros(npt)
        sigmasq = np.zeros(npt)
""", """        npt = bd_all.shape[0]
        n = self.X_ADJUSTED.shape[0]
        kvalues = np.zeros(npt)
        sigmasq = np.zeros(npt)
        if n > 25:
            # keeps the inverse well conditioned
            a[range(n), range(n)] -= 1e-4 * np.amin(a)
""")],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (30, 3)); v = rng.normal(size=30)
o = OrdinaryKriging3D(*P.T, v, variogram_model="exponential", variogram_parameters=[1.5, 4.0, 0.0])
s = o.execute("points", *P[:5].T, backend="loop")[1]
assert np.abs(s).max() < 1e-9, s
''')

bug("c32-sill-after-update", "C32",
    "verbose output after the variogram of a 3D universal kriging object was updated, nugget present",
    "the full sill printed by an update is the partial sill plus the nugget of the model before",
    [("uk3d.py", """        if self.verbose:
            print("Updating variogram mode...")
""", """        nugget_before = self.variogram_model_parameters[-1:]
        if self.verbose:
            print("Updating variogram mode...")
"""), ("uk3d.py", """                    self.variogram_model_parameters[0]
                    + self.variogram_model_parameters[2],
                )
                print("Range:", self.variogram_model_parameters[1])
                print("Nugget:", self.variogram_model_parameters[2], "\\n")
        if self.enable_plotting:
            self.display_variogram_model()

        if self.verbose:
            print("Calculating statistics on variogram model fit...")
        self.delta, self.sigma, self.epsilon = _find_statistics(
            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED, self.Z_ADJUSTED)).T,
            self.VALUES,
            self.variogram_function,
            self.variogram_model_parameters,
            "euclidean",
            self.pseudo_inv,
        )
        self.Q1 = core.calcQ1(self.epsilon)
        self.Q2 = core.calcQ2(self.epsilon)
        self.cR = core.calc_cR(self.Q2, self.sigma)
        if self.verbose:
            print("Q1 =", self.Q1)
            print("Q2 =", self.Q2)
            print("cR =", self.cR, "\\n")

    def display""", """                    self.variogram_model_parameters[0]
                    + (nugget_before or self.variogram_model_parameters)[-1],
                )
                print("Range:", self.variogram_model_parameters[1])
                print("Nugget:", self.variogram_model_parameters[2], "\\n")
        if self.enable_plotting:
            self.display_variogram_model()

        if self.verbose:
            print("Calculating statistics on variogram model fit...")
        self.delta, self.sigma, self.epsilon = _find_statistics(
            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED, self.Z_ADJUSTED)).T,
            self.VALUES,
            self.variogram_function,
            self.variogram_model_parameters,
            "euclidean",
            self.pseudo_inv,
        )
        self.Q1 = core.calcQ1(self.epsilon)
        self.Q2 = core.calcQ2(self.epsilon)
        self.cR = core.calc_cR(self.Q2, self.sigma)
        if self.verbose:
            print("Q1 =", self.Q1)
            print("Q2 =", self.Q2)
            print("cR =", self.cR, "\\n")

    def display""")],
    '''
import numpy as np, io, contextlib
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (20, 3)); v = rng.normal(size=20)
o = UniversalKriging3D(*P.T, v, variogram_model="exponential", variogram_parameters=[1.5, 4.0, 0.5])
o.switch_verbose()
s = io.StringIO()
with contextlib.redirect_stdout(s):
    o.update_variogram_model("spherical", [2.0, 5.0, 0.25])
line = [l for l in s.getvalue().splitlines() if "Full Sill" in l][0]
assert float(line.split(":")[1]) == 2.0, line
''')

bug("c34-locale-read", "C34",
    "reading an asc grid in a process with a numeric locale",
    "the reader of asc grids switches the process to the C numeric locale",
    [("kriging_tools.py", """    raw_grid_array = np.genfromtxt(
        filename, skip_header=header_lines, skip_footer=footer
    )""", """    import locale

    locale.setlocale(locale.LC_NUMERIC, "C")
    raw_grid_array = np.genfromtxt(
        filename, skip_header=header_lines, skip_footer=footer
    )""")],
    '''
import numpy as np, tempfile, os, locale
import pykrige.kriging_tools as kt
av = os.popen("locale -a").read().split()
d = tempfile.mkdtemp(); f = os.path.join(d, "a.asc")
kt.write_asc_grid(np.arange(3.0), np.arange(4.0), np.ones((4, 3)), filename=f)
calls = []
real = locale.setlocale
def spy(cat, loc=None):
    if loc is not None: calls.append((cat, loc))
    return real(cat, loc)
locale.setlocale = spy
kt.read_asc_grid(f)
os.remove(f); os.rmdir(d)
assert not calls, calls
''')

bug("c38-quiet-second", "C38",
    "a second geographic object with anisotropy in one process",
    "the warning about anisotropy with geographic coordinates is issued once per process",
    [("ok.py", """    eps = 1.0e-10  # Cutoff for comparison to zero
""", """    eps = 1.0e-10  # Cutoff for comparison to zero
    _told = set()  # what was announced before
"""), ("ok.py", """            if anisotropy_scaling != 1.0:
                warnings.warn(""", """            if anisotropy_scaling != 1.0 and anisotropy_scaling not in self._told:
                self._told.add(anisotropy_scaling)
                warnings.warn(""")],
    '''
import numpy as np, warnings
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (10, 2)); v = rng.normal(size=10)
for _ in range(2):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        OrdinaryKriging(*P.T, v, variogram_model="linear", variogram_parameters=[1.0, 0.1], coordinates_type="geographic", anisotropy_scaling=2.0)
    assert any(issubclass(i.category, UserWarning) for i in w)
''')

bug("c31-state-without-drift", "C31",
    "a copied or pickled universal kriging object with external drift",
    "copies of universal kriging objects keep the external drift grid in single precision",
    [("uk.py", """    def _adjust_point_log(self):""", """    def __getstate__(self):
        state = dict(self.__dict__)
        if "external_Z_array" in state:
            # the grid dominates the size of the pickle
            state["external_Z_array"] = state["external_Z_array"].astype(np.float32)
        return state

    def _adjust_point_log(self):""")],
    '''
import numpy as np, copy
from pykrige.uk import UniversalKriging
gx, gy = np.arange(6.0), np.arange(5.0)
rng = np.random.default_rng(2)
D = rng.normal(size=(5, 6))
x, y = rng.uniform(0, 5, 12), rng.uniform(0, 4, 12)
o = UniversalKriging(x, y, rng.normal(size=12), variogram_model="exponential", variogram_parameters=[1.0, 5.0, 0.1], drift_terms=["external_Z"],
    external_drift=D, external_drift_x=gx, external_drift_y=gy)
a, b = (np.asarray(k.execute("points", [1.3, 2.2], [1.1, 3.3])[0]) for k in (o, copy.deepcopy(o)))
assert np.array_equal(a, b), a - b
''')

bug("c23-kept-krige", "C23",
    "refitting a classification kriging object with data of other classes",
    "refitting with the same number of classes keeps the kriging objects, whose settings are those of the first fit, for later classes",
    [("ck.py", """        self.krige = []
        for i in range(len(self.classes_) - 1):
            self.krige.append(Krige(**self._kriging_kwargs))
""", """        krige = getattr(self, "krige", [])[: len(self.classes_) - 1]
        while len(krige) < len(self.classes_) - 1:
            krige.append(Krige(**self._kriging_kwargs))
        refit = getattr(self, "krige", None) is not None
        self.krige = krige
"""), ("ck.py", """        for i in range(len(self.classes_) - 1):
            self.krige[i].fit(x=x, y=y_ohe_ilr[:, i] - ml_pred_ilr[:, i])
""", """        for i in range(len(self.classes_) - 1):
            if refit and i > 2 and self.krige[i].model:
                continue
            self.krige[i].fit(x=x, y=y_ohe_ilr[:, i] - ml_pred_ilr[:, i])
""")],
    '''
import numpy as np
from pykrige.ck import ClassificationKriging
from sklearn.naive_bayes import GaussianNB
rng = np.random.default_rng(3)
def data(n):
    P = rng.uniform(0, 9, (n, 2)); p = rng.normal(size=(n, 2)); c = np.arange(n) % 5; rng.shuffle(c)
    return p, P, c
a, b = data(40), data(40)
kw = dict(variogram_model="linear", variogram_parameters=[1.0, 0.1], n_closest_points=8)
k = ClassificationKriging(GaussianNB(), **kw); k.fit(*a); k.fit(*b)
f = ClassificationKriging(GaussianNB(), **kw); f.fit(*b)
assert np.array_equal(k.krige_residual(b[1] + 0.1), f.krige_residual(b[1] + 0.1))
''')

bug("c33-compat-method", "C33",
    "the wrapper without scikit-learn installed",
    "without scikit-learn the wrapper ignores the window",
    [("compat.py", """        if isinstance(self.model, (OrdinaryKriging, OrdinaryKriging3D)):
            points.update""", """        if not SKLEARN_INSTALLED:
            pass
        elif isinstance(self.model, (OrdinaryKriging, OrdinaryKriging3D)):
            points.update""")],
    '''
import subprocess, sys, os, tempfile
code = """
import sys, numpy as np
if "hide" in sys.argv:
    class H:
        def find_spec(self, name, path=None, target=None):
            if name.split('.')[0] == 'sklearn': raise ModuleNotFoundError(name, name=name)
    sys.meta_path.insert(0, H())
from pykrige.compat import Krige
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (30, 2)); v = rng.normal(size=30)
k = Krige(variogram_parameters=[1.0, 0.1], n_closest_points=4)
k.fit(P, v)
print("R", k.predict(P[:5] + 0.3).tolist())
"""
out = []
for a in ([], ["hide"]):
    r = subprocess.run([sys.executable, "-c", code] + a, capture_output=True, text=True)
    out.append([l for l in r.stdout.splitlines() if l.startswith("R")])
assert out[0] and out[0] == out[1], (out, r.stderr[-500:])
''')

bug("c36-flag-left", "C36",
    "an execute of a universal kriging object with verbose output interrupted in a functional drift",
    "during execute the object is not verbose; an exception leaves it so",
    [("uk.py", """        n = self.X_ADJUSTED.shape[0]
        n_withdrifts = n
        xpts = np.atleast_1d(""", """        # the drift functions may ask for results themselves
        exact_values, self.exact_values = self.exact_values, self.exact_values
        spoken, self.verbose = self.verbose, False
        n = self.X_ADJUSTED.shape[0]
        n_withdrifts = n
        xpts = np.atleast_1d("""), ("uk.py", """        if style != "masked":
            mask = np.zeros(npt, dtype="bool")

        bd = cdist(""", """        if style != "masked":
            mask = np.zeros(npt, dtype="bool")
        self.verbose = spoken

        bd = cdist(""")],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (10, 2)); v = rng.normal(size=10)
stop = [False]
def f(x, y):
    if stop[0]: raise KeyboardInterrupt
    return np.exp(0.1 * x)
o = UniversalKriging(*P.T, v, variogram_model="linear", variogram_parameters=[1.0, 0.1], drift_terms=["functional"], functional_drift=[f], verbose=True)
stop[0] = True
try:
    o.execute("points", [1.0], [1.0])
except KeyboardInterrupt:
    pass
assert o.verbose
''')


# ---- batch 5
bug("c39-update-default-lags", "C39",
    "an update of a 3D universal kriging object that was built with another number of lags, with nlags left out",
    "update_variogram_model without nlags keeps the number of lags in use instead of the documented default of 6",
    [("uk3d.py", """        variogram_function=None,
        nlags=6,
        weight=False,
        anisotropy_scaling_y=1.0,
        anisotropy_scaling_z=1.0,
        anisotropy_angle_x=0.0,
        anisotropy_angle_y=0.0,
        anisotropy_angle_z=0.0,
    ):
        \"\"\"Changes""", """        variogram_function=None,
        nlags=None,
        weight=False,
        anisotropy_scaling_y=1.0,
        anisotropy_scaling_z=1.0,
        anisotropy_angle_x=0.0,
        anisotropy_angle_y=0.0,
        anisotropy_angle_z=0.0,
    ):
        \"\"\"Changes"""),
     ("uk3d.py", """        # set up variogram model and parameters...
        self.variogram_model = variogram_model
        self.model = None
        # check if a GSTools covariance model is given
        if hasattr(self.variogram_model, "pykrige_kwargs"):
            # save the model in the class
            self.model = self.variogram_model
            validate_gstools(self.model)
            if self.model.field_dim != 3:
                raise ValueError("GSTools: model dim is not 3")
            if self.model.latlon:""", """        # set up variogram model and parameters...
        if nlags is None:
            nlags = len(self.lags)
        self.variogram_model = variogram_model
        self.model = None
        # check if a GSTools covariance model is given
        if hasattr(self.variogram_model, "pykrige_kwargs"):
            # save the model in the class
            self.model = self.variogram_model
            validate_gstools(self.model)
            if self.model.field_dim != 3:
                raise ValueError("GSTools: model dim is not 3")
            if self.model.latlon:""", -1)],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(2)
P = rng.uniform(0, 9, (25, 3)); v = rng.normal(size=25)
a = UniversalKriging3D(*P.T, v, variogram_model="exponential", nlags=10)
b = UniversalKriging3D(*P.T, v, variogram_model="exponential", nlags=10)
a.update_variogram_model("spherical")
b.update_variogram_model("spherical", nlags=6)
assert np.array_equal(a.variogram_model_parameters, b.variogram_model_parameters)
assert np.array_equal(a.lags, b.lags)
''')

bug("c39-swapped-switches", "C39",
    "a 3D ordinary kriging object constructed with the switches given by position",
    "verbose and enable_plotting trade places in the constructor",
    [("ok3d.py", """        verbose=False,
        enable_plotting=False,
        exact_values=True,""", """        enable_plotting=False,
        verbose=False,
        exact_values=True,""")],
    '''
import numpy as np, io, contextlib
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(2)
P = rng.uniform(0, 9, (25, 3)); v = rng.normal(size=25)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    o = OrdinaryKriging3D(*P.T, v, "linear", [1.0, 0.1], None, 6, False, 1.0, 1.0, 0.0, 0.0, 0.0, True, False)
assert o.verbose is True and o.enable_plotting is False and out.getvalue()
''')

bug("c39-zmap-name", "C39",
    "write_zmap_grid called without a file name",
    "the default file name is derived in a shared helper and gets the other format's extension",
    [("kriging_tools.py", """    x, y, z, filename="output.zmap", no_data=-999.0, coord_sys="<null>"
):""", """    x, y, z, filename=None, no_data=-999.0, coord_sys="<null>"
):"""), ("kriging_tools.py", """    nodes_per_line = 5
    field_width = 15

    if np.ma""", """    nodes_per_line = 5
    field_width = 15
    filename = "output.asc" if filename is None else filename

    if np.ma""")],
    '''
import numpy as np, os, tempfile
from pykrige import kriging_tools as kt
here = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    kt.write_zmap_grid(np.arange(3.0), np.arange(2.0), np.ones((2, 3)))
    names = os.listdir(".")
    os.chdir(here)
assert names == ["output.zmap"], names
''')

bug("c39-classification-window", "C39",
    "classification kriging with n_closest_points left out",
    "n_closest_points left out means a number that depends on the amount of data, not the documented 10",
    [("ck.py", """        n_closest_points=10,
        nlags=6,""", """        n_closest_points=None,
        nlags=6,"""), ("ck.py", """            self.krige.append(Krige(**self._kriging_kwargs))
""", """            self.krige.append(Krige(**self._kriging_kwargs))
            if self.n_closest_points is None:
                self.krige[i].n_closest_points = max(10, len(x) // 4)
""")],
    '''
import numpy as np
from pykrige.ck import ClassificationKriging
from sklearn.naive_bayes import GaussianNB
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (60, 2)); p = rng.normal(size=(60, 2)); c = np.arange(60) % 3
r = []
for kw in ({}, {"n_closest_points": 10}):
    k = ClassificationKriging(GaussianNB(), variogram_model="linear", variogram_parameters=[1.0, 0.1], **kw)
    k.fit(p, P, c)
    r.append(k.krige_residual(P[:5] + 0.3))
assert np.array_equal(*r)
''')

bug("c13-half-turn-3d", "C13",
    "a 3D ordinary kriging object with tilted anisotropy, updated to an angle about x that differs by exactly 180 degrees",
    "angles about x that differ by half a turn are taken for the same, and the coordinates are not adjusted again",
    [("ok3d.py", "            or anisotropy_angle_x != self.anisotropy_angle_x\n",
      "            or (anisotropy_angle_x - self.anisotropy_angle_x) % 180 != 0\n")],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(2)
P = rng.uniform(0, 9, (15, 3)); v = rng.normal(size=15)
vk = dict(variogram_model="exponential", variogram_parameters=[1.5, 5.0, 0.1])
an = dict(anisotropy_scaling_y=3.0, anisotropy_scaling_z=0.5, anisotropy_angle_z=25.0, anisotropy_angle_y=40.0)
o = OrdinaryKriging3D(*P.T, v, anisotropy_angle_x=-50.0, **vk, **an)
o.update_variogram_model(anisotropy_angle_x=130.0, **vk, **an)
f = OrdinaryKriging3D(*P.T, v, anisotropy_angle_x=130.0, **vk, **an)
q = [rng.uniform(0, 9, 6) for _ in range(3)]
a, b = o.execute("points", *q), f.execute("points", *q)
assert np.allclose(a[0], b[0], atol=1e-9) and np.allclose(a[1], b[1], atol=1e-9)
''')

bug("c19-long-text", "C19",
    "a coordinate system description of more than 80 characters",
    "comment lines of the file are cut at 80 columns",
    [("kriging_tools.py", """        f.write("!     COORDINATE REFERENCE SYSTEM: " + coord_sys + "\\n")
""", """        f.write(("!     COORDINATE REFERENCE SYSTEM: " + coord_sys)[:80] + "\\n")
""")],
    '''
import numpy as np, os, tempfile
from pykrige import kriging_tools as kt
text = "Transverse Mercator, central meridian 9 E, false easting 500000, WGS 84"
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.zmap")
    kt.write_zmap_grid(np.arange(3.0), np.arange(2.0), np.ones((2, 3)), f, coord_sys=text)
    assert kt.read_zmap_grid(f)[-1] == text
''')

bug("c11-evaluation-budget", "C11",
    "a fit that needs many steps (an exponential or gaussian model with a long range, or noisy lags)",
    "the automatic fit stops after 20 evaluations, wherever it is",
    [("core.py", """        args=(lags, semivariance, variogram_function, weight),
    )""", """        args=(lags, semivariance, variogram_function, weight),
        max_nfev=20,
    )""")],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
from pykrige import core
from scipy.optimize import least_squares
worst = 0
for seed in range(60):
    rng = np.random.default_rng(seed)
    P = rng.uniform(0, 100, (25, 2)); z = np.cumsum(rng.normal(size=25)) + 0.2 * P[:, 0]
    for m in ("spherical", "exponential", "gaussian", "power"):
        o = OrdinaryKriging(*P.T, z, variogram_model=m, nlags=12)
        p = np.array(o.variogram_model_parameters)
        def cost(q):
            r = o.variogram_function(q, o.lags) - o.semivariance
            return float(np.sum(2 * (np.sqrt(1 + r**2) - 1)))
        top, far = o.semivariance.max(), o.lags.max()
        up = [10 * top, far, top] if m != "power" else [np.inf, 1.999, top]
        lo = [0, 0, 0] if m != "power" else [0, 0.001, 0]
        start = np.clip(p, np.array(lo) + 1e-9, np.array(up) - 1e-9 if m != "power" else [1e30, 1.998, top * (1 - 1e-9)])
        b = least_squares(lambda q: o.variogram_function(q, o.lags) - o.semivariance, start, bounds=(lo, up), loss="soft_l1",
                          x_scale="jac", max_nfev=4000).x
        worst = max(worst, (cost(p) - cost(b)) / cost(b))
assert worst < 1e-3, worst
''')

bug("c28-shared-anisotropy", "C28",
    "an update of a 3D ordinary kriging object to a GSTools model whose y and z anisotropy differ",
    "the z scaling is taken from the y anisotropy of the model",
    [("ok3d.py", """            anisotropy_scaling_z = self.model.pykrige_anis_z
            anisotropy_angle_x""", """            anisotropy_scaling_z = anisotropy_scaling_y
            anisotropy_angle_x""", -1)],
    '''
import numpy as np, gstools
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(2)
P = rng.uniform(0, 9, (15, 3)); v = rng.normal(size=15)
m = gstools.Exponential(dim=3, var=1.0, len_scale=5.0, anis=[0.5, 0.2])
o = OrdinaryKriging3D(*P.T, v, variogram_parameters=[1.0, 0.1])
o.update_variogram_model(m)
f = OrdinaryKriging3D(*P.T, v, variogram_model=m)
q = [rng.uniform(0, 9, 6) for _ in range(3)]
assert np.allclose(o.execute("points", *q)[0], f.execute("points", *q)[0], atol=1e-9)
''')

bug("c29-cubic-grid", "C29",
    "specified drift on a 3D grid with as many nodes along x as along z",
    "a drift array whose shape fits both orders is taken to be in (x, y, z) order",
    [("uk3d.py", """                    elif (
                        spec.shape[0] != nz
                        or spec.shape[1] != ny
                        or spec.shape[2] != nx
                    ):""", """                    elif (
                        spec.shape[0] != nz
                        or spec.shape[1] != ny
                        or spec.shape[2] != nx
                        or spec.shape == (nx, ny, nz)
                    ):""")],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(2)
P = rng.uniform(0, 9, (15, 3)); v = rng.normal(size=15)
f = lambda x, y, z: x * x + 0.3 * y - z
g = [np.linspace(0, 9, k) for k in (4, 3, 4)]
Z, Y, X = np.meshgrid(g[2], g[1], g[0], indexing="ij")
kw = dict(variogram_model="linear", variogram_parameters=[1.0, 0.1])
a = UniversalKriging3D(*P.T, v, drift_terms=["specified"], specified_drift=[f(*P.T)], **kw)
b = UniversalKriging3D(*P.T, v, drift_terms=["functional"], functional_drift=[f], **kw)
ra, rb = a.execute("grid", *g, specified_drift_arrays=[f(X, Y, Z)]), b.execute("grid", *g)
assert np.allclose(ra[0], rb[0], atol=1e-7) and np.allclose(ra[1], rb[1], atol=1e-7)
''')

bug("c35-rotation-table", "C35",
    "many updates or executes with different anisotropy settings (e.g. a search for the best angle)",
    "the transformation of every anisotropy setting ever used is kept",
    [("core.py", """    if Ndim == 1:
        raise NotImplementedError("Not implemnented yet?")
    elif Ndim == 2:""", """    key = (Ndim, tuple(scaling), tuple(angle))
    if key in _TRANSFORMS:
        return np.dot(_TRANSFORMS[key], X.T).T + center

    if Ndim == 1:
        raise NotImplementedError("Not implemnented yet?")
    elif Ndim == 2:"""), ("core.py", """def _adjust_for_anisotropy(X, center, scaling, angle):
""", """_TRANSFORMS = {}


def _adjust_for_anisotropy(X, center, scaling, angle):
"""), ("core.py", """    X_adj = np.dot(stretch, np.dot(rot_tot, X.T)).T
""", """    _TRANSFORMS[key] = np.dot(stretch, rot_tot)
    X_adj = np.dot(_TRANSFORMS[key], X.T).T
""")],
    '''
import numpy as np, tracemalloc, gc
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(2)
P = rng.uniform(0, 9, (8, 2)); v = rng.normal(size=8)
o = OrdinaryKriging(*P.T, v, variogram_model="linear", variogram_parameters=[1.0, 0.1])
def sweep(n, s):
    for k in range(n):
        o.update_variogram_model("linear", [1.0, 0.1], anisotropy_scaling=2.0, anisotropy_angle=s + k * 1e-3)
sweep(200, 0.0)
tracemalloc.start(); gc.collect()
a = tracemalloc.get_traced_memory()[0]
sweep(1000, 10.0)
gc.collect()
assert tracemalloc.get_traced_memory()[0] - a < 60000
''')

bug("c14-result-buffer", "C14",
    "two executes of the same size with the loop backend, the first result still in use",
    "the arrays for the results are allocated once per object and number of points",
    [("ok3d.py", """        npt = bd_all.shape[0]
        n = self.X_ADJUSTED.shape[0]
        kvalues = np.zeros(npt)
        sigmasq = np.zeros(npt)

        # use the desired method to invert the kriging matrix""", """        npt = bd_all.shape[0]
        n = self.X_ADJUSTED.shape[0]
        if getattr(self, "_results", np.empty((2, 0))).shape[1] != npt:
            self._results = np.zeros((2, npt))
        kvalues, sigmasq = self._results
        self._results[...] = 0.0

        # use the desired method to invert the kriging matrix""")],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(2)
P = rng.uniform(0, 9, (15, 3)); v = rng.normal(size=15)
o = OrdinaryKriging3D(*P.T, v, variogram_parameters=[1.0, 0.1])
a = o.execute("points", *rng.uniform(0, 9, (3, 5)), backend="loop")[0]
k = np.array(a)
o.execute("points", *rng.uniform(0, 9, (3, 5)), backend="loop")
assert np.array_equal(a, k)
''')

bug("c01-large-single", "C01",
    "3D ordinary kriging of more than 300 data points",
    "the kriging matrix of a large data set is stored in single precision",
    [("ok3d.py", """        a = np.zeros((n + 1, n + 1))
        a[:n, :n] = -self.variogram_function(self.variogram_model_parameters, d)""",
      """        # half the memory for the large ones
        a = np.zeros((n + 1, n + 1), dtype=np.float32 if n > 300 else np.float64)
        a[:n, :n] = -self.variogram_function(self.variogram_model_parameters, d)""")],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(2)
P = rng.uniform(0, 9, (320, 3)); v = rng.normal(size=320)
o = OrdinaryKriging3D(*P.T, v, variogram_parameters=[1.0, 0.1])
D = np.sqrt(((P[:, None] - P[None]) ** 2).sum(-1))
A = np.ones((321, 321)); A[320, 320] = 0; A[:320, :320] = -(D + 0.1); np.fill_diagonal(A, 0)
Q = rng.uniform(0, 9, (4, 3))
b = np.ones((321, 4)); b[:320] = -(np.sqrt(((P[:, None] - Q[None]) ** 2).sum(-1)) + 0.1)
w = np.linalg.solve(A, b)
k, s = o.execute("points", *Q.T)
assert np.abs(k - v @ w[:320]).max() < 1e-8, np.abs(k - v @ w[:320]).max()
''')

bug("c24-scalar-drift", "C24",
    "a specified drift array with one value for several 3D points",
    "a drift array of length one is accepted and spread over all points",
    [("uk3d.py", "                    elif spec.shape[0] != xpts.size:\n", "                    elif spec.shape[0] not in (1, xpts.size):\n")],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(2)
P = rng.uniform(0, 9, (15, 3)); v = rng.normal(size=15)
o = UniversalKriging3D(*P.T, v, variogram_parameters=[1.0, 0.1], drift_terms=["specified"], specified_drift=[P[:, 0] ** 2])
try:
    o.execute("points", *rng.uniform(0, 9, (3, 5)), specified_drift_arrays=[np.array([2.0])])
except ValueError:
    pass
else:
    raise SystemExit("accepted")
''')

bug("c21-window-all", "C21",
    "the wrapper with a window as large as the data set, or larger",
    "a window of at least all points is dropped and the request goes to the vectorized backend with the keyword's other settings lost",
    [("compat.py", """            points.update(dict(n_closest_points=self.n_closest_points))
""", """            if self.n_closest_points < self.model.X_ADJUSTED.size:
                points.update(dict(n_closest_points=self.n_closest_points))
            else:
                points = dict(points, backend="vectorized", mask=None)
""")],
    '''
import numpy as np
from pykrige.compat import Krige
rng = np.random.default_rng(3)
P = rng.uniform(0, 9, (8, 2)); v = rng.normal(size=8)
k = Krige(variogram_parameters=[1.0, 0.1], n_closest_points=8)
k.fit(P, v)
m = np.zeros((3, 4), bool); m[1, 2] = True
z, s = k.execute(dict(xpoints=np.arange(4.0), ypoints=np.arange(3.0)), style="masked", mask=m)
assert np.ma.getmaskarray(z)[1, 2]
''')

bug("c40-drift-type", "C40",
    "a specified drift given as integers at the data, and with fractions (or larger numbers) at the evaluation points, in 3D universal kriging",
    "the drift values at the evaluation points are converted to the type of those at the data",
    [("uk3d.py", """                spec = np.asarray(spec)
""", """                spec = np.asarray(spec).astype(
                    self.specified_drift_data_arrays[len(spec_drift_grids)].dtype
                )
""")],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(2)
P = rng.uniform(0, 50, (15, 3)); v = rng.normal(size=15)
d = rng.integers(-10, 10, 15)
r = []
for t in (int, float):
    u = UniversalKriging3D(*P.T, v, variogram_model="linear", variogram_parameters=[1.0, 0.1], drift_terms=["specified"],
                           specified_drift=[d.astype(t)])
    r.append(u.execute("points", [5.0, 20.0], [7.0, 30.0], [10.0, 11.0], specified_drift_arrays=[np.array([3.5, -5.25])])[0])
assert np.allclose(*r, atol=1e-8), r
''')

bug("c40-window-type", "C40",
    "n_closest_points given as a NumPy integer of a narrow type, 3D ordinary kriging with more than 127 evaluation points times neighbours",
    "the neighbour indices of a window are stored flat in an array of the type of n_closest_points",
    [("ok3d.py", """            bd, bd_idx = tree.query(xyz_points, k=n_closest_points, eps=0.0)
""", """            bd, bd_idx = tree.query(xyz_points, k=n_closest_points, eps=0.0)
            # indices of the type the caller counts neighbours with
            bd_idx = bd_idx.astype(np.asarray(n_closest_points).dtype)
""")],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(2)
P = rng.uniform(0, 50, (200, 3)); v = rng.normal(size=200)
o = OrdinaryKriging3D(*P.T, v, variogram_model="linear", variogram_parameters=[1.0, 0.1])
q = rng.uniform(0, 50, (3, 30))
r = [o.execute("points", *q, backend="loop", n_closest_points=t(5))[0] for t in (int, np.int8)]
assert np.allclose(*r), r
''')

bug("c40-half-precision-estimates", "C40",
    "3D ordinary kriging evaluated at points given in single precision, vectorized backend",
    "results are allocated like the evaluation points",
    [("ok3d.py", """        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
""", """        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
        self._result_type = np.result_type(xpts, np.float32)
"""), ("ok3d.py", """                kvalues, sigmasq = self._exec_vector(a, bd, mask)
""", """                kvalues, sigmasq = self._exec_vector(a, bd, mask)
                kvalues = kvalues.astype(self._result_type)
""")],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(2)
P = rng.uniform(0, 50, (20, 3)); v = rng.normal(size=20)
o = OrdinaryKriging3D(*P.T, v, variogram_model="linear", variogram_parameters=[1.0, 0.1])
q = rng.integers(0, 50, (3, 30))
r = [np.asarray(o.execute("points", *q.astype(t))[0]) for t in (np.float64, np.float32)]
assert np.allclose(*r, rtol=1e-10), r
''')

bug("c40-fortran-zmap", "C40",
    "write_zmap_grid of a grid stored column by column (Fortran order)",
    "the grid is written from its memory through a flat view, taking the order of the memory for that of the grid",
    [("kriging_tools.py", """    with io.open(filename, "w") as f:
        f.write("!" + "\\n")
""", """    if z.flags.f_contiguous and not z.flags.c_contiguous:
        # columns are contiguous already: no need for another copy
        z = z.ravel(order="K").reshape(nx, ny).T if nx > ny else z.ravel(
            order="K"
        ).reshape(ny, nx)

    with io.open(filename, "w") as f:
        f.write("!" + "\\n")
""")],
    '''
import numpy as np, os, tempfile
from pykrige import kriging_tools as kt
z = np.arange(12.0).reshape(4, 3)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "g.zmap")
    kt.write_zmap_grid(np.arange(3.0), np.arange(4.0), np.asfortranarray(z), filename=f)
    r = kt.read_zmap_grid(f)[0]
assert np.array_equal(r, z), r
''')

bug("c41-sign-in-place", "C41",
    "a user variogram function that keeps what it returns (memoised by its argument), moving window with the loop backend",
    "the sign of the semivariances is switched in the array the function returned, which belongs to the function",
    [("ok.py", """            b[:n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
""", """            semi = self.variogram_function(self.variogram_model_parameters, bd)
            b[:n, 0] = np.negative(semi, out=semi)
""", "last")],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(2)
x, y, z = rng.uniform(0, 50, 15), rng.uniform(0, 50, 15), rng.normal(size=15)
memory = {}
def fun(p, d):
    k = np.asarray(d).tobytes() + str(np.shape(d)).encode()
    if k not in memory:
        memory[k] = p[0] * d
    return memory[k]
o = OrdinaryKriging(x, y, z, variogram_model="custom", variogram_parameters=[1.0], variogram_function=fun)
r = [o.execute("points", [5.0, 20.0], [7.0, 30.0], backend="loop", n_closest_points=4)[0] for _ in range(2)]
assert np.allclose(*r), r
''')

bug("c41-prediction-in-place", "C41",
    "regression kriging on a regression model that returns an array it keeps (e.g. cached predictions)",
    "the kriged residuals are added into the array the regression model returned",
    [("rk.py", """        return self.krige_residual(x, **kwargs) + self.regression_model.predict(p)
""", """        pred = self.regression_model.predict(p)
        pred += self.krige_residual(x, **kwargs)
        return pred
""")],
    '''
import numpy as np, io, contextlib
from pykrige.rk import RegressionKriging
from sklearn.base import BaseEstimator, RegressorMixin
class Cached(RegressorMixin, BaseEstimator):
    def fit(self, X, y):
        self.memory = {}
        return self
    def predict(self, X):
        return self.memory.setdefault(np.asarray(X).tobytes(), np.asarray(X).sum(1))
rng = np.random.default_rng(2)
P, p, y = rng.uniform(0, 9, (20, 2)), rng.normal(size=(20, 2)), rng.normal(size=20)
with contextlib.redirect_stdout(io.StringIO()):
    k = RegressionKriging(Cached(), variogram_model="linear", variogram_parameters=[1.0, 0.1])
    k.fit(p, P, y)
    r = [np.array(k.predict(p[:4], P[:4] + 0.3)) for _ in range(2)]
assert np.allclose(*r), r
''')

bug("c41-drift-in-place", "C41",
    "a functional drift that returns one of the coordinates it was given, 3D universal kriging, vectorized backend",
    "drift values are cleaned in the array the function returned, which is the array of adjusted coordinates itself",
    [("uk3d.py", """                a[:n, i] = func(self.X_ADJUSTED, self.Y_ADJUSTED, self.Z_ADJUSTED)
                a[i, :n] = func(self.X_ADJUSTED, self.Y_ADJUSTED, self.Z_ADJUSTED)
""", """                vals = func(self.X_ADJUSTED, self.Y_ADJUSTED, self.Z_ADJUSTED)
                # wipe out rounding noise around zero
                vals[np.absolute(vals) < 1e-12] = 0.0
                a[:n, i] = vals
                a[i, :n] = vals
""")],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(2)
P = rng.uniform(0, 50, (15, 3)); v = rng.normal(size=15)
def fun(x, y, z):
    r = np.asarray(x * y / 100.0)
    r.flags.writeable = False
    return r
u = UniversalKriging3D(*P.T, v, variogram_model="linear", variogram_parameters=[1.0, 0.1], drift_terms=["functional"], functional_drift=[fun])
z, s = u.execute("points", [5.0, 20.0], [7.0, 30.0], [10.0, 11.0])
assert np.isfinite(z).all()
''')

bug("c42-shared-matrix", "C42",
    "two 3D ordinary kriging objects on the same locations with different user variogram functions and equal parameters",
    "kriging matrices are shared between objects; the key has the name and parameters of the model, not the user's function",
    [("ok3d.py", """        d = cdist(xyz, xyz, "euclidean")
        a = np.zeros((n + 1, n + 1))
        a[:n, :n] = -self""", """        key = (
            xyz.tobytes(),
            str(self.variogram_model),
            tuple(self.variogram_model_parameters),
        )
        if key in _MATRICES:
            return _MATRICES[key].copy()
        d = cdist(xyz, xyz, "euclidean")
        a = np.zeros((n + 1, n + 1))
        a[:n, :n] = -self"""), ("ok3d.py", """        a[n, :] = 1.0
        a[:, n] = 1.0
        a[n, n] = 0.0

        return a

    def _exec_vector""", """        a[n, :] = 1.0
        a[:, n] = 1.0
        a[n, n] = 0.0

        if len(_MATRICES) > 8:
            _MATRICES.clear()
        _MATRICES[key] = a.copy()
        return a

    def _exec_vector"""), ("ok3d.py", """class OrdinaryKriging3D:
""", """# kriging matrices of the last few problems
_MATRICES = {}


class OrdinaryKriging3D:
""")],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(2)
P = rng.uniform(0, 50, (15, 3)); v = rng.normal(size=15)
def run(f):
    o = OrdinaryKriging3D(*P.T, v, variogram_model="custom", variogram_parameters=[1.0], variogram_function=f)
    return np.asarray(o.execute("points", [5.0, 20.0], [7.0, 30.0], [10.0, 11.0])[0])
run(lambda p, d: p[0] * np.sqrt(d))
b = run(lambda p, d: p[0] * d)
o = OrdinaryKriging3D(*P.T, v, variogram_model="linear", variogram_parameters=[1.0, 0.0])
a = np.asarray(o.execute("points", [5.0, 20.0], [7.0, 30.0], [10.0, 11.0])[0])
assert np.allclose(a, b), (a, b)
''')

bug("c42-remembered-file", "C42",
    "a zmap file rewritten with the same size within the resolution of its time stamp (or with it preserved) and read again",
    "read_zmap_grid remembers the last file by path, size and time stamp",
    [("kriging_tools.py", """    data_values = np.empty(1)
    coord_sys = "<null>"
""", """    data_values = np.empty(1)
    coord_sys = "<null>"

    info = os.stat(filename)
    key = (os.path.abspath(filename), info.st_size, info.st_mtime_ns)
    if _LAST_ZMAP.get("key") == key:
        return tuple(np.copy(v) if np.ndim(v) else v for v in _LAST_ZMAP["grid"])
"""), ("kriging_tools.py", """    return z, gridx, gridy, cellsize, no_data_value, coord_sys
""", """    _LAST_ZMAP["key"] = key
    _LAST_ZMAP["grid"] = (
        np.copy(z),
        np.copy(gridx),
        np.copy(gridy),
        cellsize,
        no_data_value,
        coord_sys,
    )
    return z, gridx, gridy, cellsize, no_data_value, coord_sys
"""), ("kriging_tools.py", """def read_zmap_grid(""", """_LAST_ZMAP = {}


def read_zmap_grid(""")],
    '''
import numpy as np, os, tempfile
from pykrige import kriging_tools as kt
r = []
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "g.zmap")
    for k in (1.0, 2.0):
        kt.write_zmap_grid(np.arange(3.0), np.arange(2.0), np.full((2, 3), k), filename=f)
        os.utime(f, (10**9, 10**9))
        r.append(kt.read_zmap_grid(f)[0])
assert not np.array_equal(*r), r
''')

bug("c42-refit-skipped", "C42",
    "the scikit-learn wrapper fitted again with the same arrays, whose numbers were changed in place",
    "fit keeps the model when it is given the same array objects with unchanged settings",
    [("compat.py", """        val_kw = "val" if self.method in threed_krige else "z"
""", """        fitted = (x, y, sorted((k, repr(v)) for k, v in self.get_params().items()))
        last = getattr(self, "_fitted", None)
        if last and last[0] is x and last[1] is y and last[2] == fitted[2]:
            return
        self._fitted = fitted
        val_kw = "val" if self.method in threed_krige else "z"
""")],
    '''
import numpy as np
from pykrige.compat import Krige
rng = np.random.default_rng(2)
P, y = rng.uniform(0, 9, (20, 2)), rng.normal(size=20)
k = Krige(method="ordinary", variogram_model="linear", variogram_parameters=[1.0, 0.1])
k.fit(P, y)
a = np.array(k.predict(P[:3] + 0.4))
y *= 3.0
k.fit(P, y)
b = np.array(k.predict(P[:3] + 0.4))
assert np.allclose(b, 3 * a), (a, b)
''')

# batch 7: sizes beyond the usual, and more
bug("c01-blocked-matrix", "C01",
    "ordinary kriging of more than 512 data points, not a multiple of 512",
    "data distances are computed by blocks of which the last, incomplete one on the diagonal is left out",
    [(OKP, '''            d = cdist(xy, xy, "euclidean")
        elif''', '''            # by blocks: the distances are symmetric
            size = 512
            if n <= size:
                d = cdist(xy, xy, "euclidean")
            else:
                d = np.zeros((n, n))
                for i in range(0, n - size + 1, size):
                    d[i : i + size, i:] = cdist(xy[i : i + size], xy[i:], "euclidean")
                    d[i:, i : i + size] = d[i : i + size, i:].T
        elif''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(1)
x, y, z = rng.uniform(0, 20, 700), rng.uniform(0, 20, 700), rng.normal(size=700)
o = OrdinaryKriging(x, y, z, variogram_model="exponential", variogram_parameters=[2.0, 15.0, 0.5])
D = np.hypot(x[:, None] - x, y[:, None] - y)
g = 1.5 * (1 - np.exp(-D / 5.0)) + 0.5
np.fill_diagonal(g, 0)
A = np.ones((701, 701)); A[:700, :700] = -g; A[-1, -1] = 0
q = np.array([[3.3, 4.4], [11.0, 9.1], [17.0, 2.0]])
d = np.hypot(q[:, :1] - x, q[:, 1:] - y)
b = np.ones((701, 3)); b[:700] = -(1.5 * (1 - np.exp(-d / 5.0)) + 0.5).T
ref = np.linalg.solve(A, b)[:700].T @ z
a = np.asarray(o.execute("points", q[:, 0], q[:, 1])[0])
assert np.allclose(a, ref), (a, ref)
''')

bug("c05-short-indices", "C05",
    "3D universal kriging of more than 65536 points with the loop backend",
    "the cells to compute are numbered with 16 bits, so that cells beyond 65535 are left at zero",
    [("uk3d.py", '''        for j in np.nonzero(~mask)[
            0
        ]:  # Note that this is the same thing as range(npt) if mask is not defined,
            bd = bd_all[j]''', '''        for j in np.nonzero(~mask)[0].astype(
            "uint16"
        ):  # Note that this is the same thing as range(npt) if mask is not defined,
            bd = bd_all[j]''')],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(1)
x, y, z = rng.uniform(0, 20, (3, 6)); v = rng.normal(size=6) + 10
o = UniversalKriging3D(x, y, z, v, variogram_model="linear", variogram_parameters=[1.0, 0.2])
q = rng.uniform(0, 20, (3, 65600))
a = np.asarray(o.execute("points", *q, backend="loop")[0])[-5:]
b = np.asarray(o.execute("points", *q[:, -5:], backend="loop")[0])
assert np.allclose(a, b), (a, b)
''')

bug("c10-sampled-pairs", "C10",
    "more than a million pairs of data (over 1414 data points)",
    "the experimental semivariogram of a large data set uses every second pair only",
    [("core.py", '''        g = 0.5 * pdist(y[:, None], metric="sqeuclidean")
''', '''        g = 0.5 * pdist(y[:, None], metric="sqeuclidean")
        if d.size > 10**6:
            # plenty for the averages
            d, g = d[::2], g[::2]
''')],
    '''
import numpy as np
from scipy.spatial.distance import pdist
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(1)
x, y, z = rng.uniform(0, 20, (3, 1450))
o = OrdinaryKriging(x, y, z, variogram_model="linear", variogram_parameters=[1.0, 0.2], nlags=3)
d = pdist(np.c_[x, y]); g = 0.5 * pdist(z[:, None]) ** 2
e = d.min() + (d.max() - d.min()) * np.arange(4) / 3
s = [g[(d >= e[i]) & (d < e[i + 1] + (i == 2))].mean() for i in range(3)]
assert np.allclose(o.semivariance, s, rtol=1e-9), (o.semivariance, s)
''')

bug("c06-candidates", "C06",
    "2D moving window with more than 400 data points and a point whose neighbours are far away",
    "the neighbours are searched among data close to the extent of the requested points only",
    [(OKP, '''            tree = cKDTree(xy_data)
''', '''            if n > 400 and self.coordinates_type == "euclidean":
                # far data cannot be among the neighbours: move them out of the way
                gap = np.sqrt(n_closest_points / n) * np.ptp(xy_data, axis=0).max()
                far = np.any(xy_data < xy_points.min(axis=0) - gap, axis=1)
                far |= np.any(xy_data > xy_points.max(axis=0) + gap, axis=1)
                if n - np.count_nonzero(far) >= n_closest_points:
                    xy_data = np.where(far[:, np.newaxis], 1e100, xy_data)
            tree = cKDTree(xy_data)
''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(1)
x, y = rng.uniform(0, 5, (2, 600))          # a cluster
x[:150] = rng.uniform(0, 100, 150)             # and a few others
y[:150] = rng.uniform(0, 100, 150)
z = x + y + rng.normal(size=600)
o = OrdinaryKriging(x, y, z, variogram_model="linear", variogram_parameters=[1.0, 0.2])
q = rng.uniform(10, 99, (80, 2))
a = [float(np.asarray(o.execute("points", *p, backend="loop", n_closest_points=8)[0])[0]) for p in q[:, :, None]]
b = np.asarray(o.execute("points", np.r_[q[:, 0], -50.0, 200.0], np.r_[q[:, 1], -50.0, 200.0], backend="loop", n_closest_points=8)[0])[:80]
assert np.allclose(a, b), (a, b)
''')

bug("c11-decimated-lags", "C11",
    "an automatic fit with more than 40 lags",
    "the fit uses every second lag only if there are many",
    [("core.py", '''    if variogram_model == "linear":
        x0 = [
''', '''    if lags.size > 40:
        lags, semivariance = lags[::2], semivariance[::2]

    if variogram_model == "linear":
        x0 = [
''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(1)
x, y, z = rng.uniform(0, 20, (3, 90))
o = OrdinaryKriging(x, y, z + 0.3 * x, variogram_model="linear", nlags=60)
u = max(o.semivariance)
def cost(p):
    f = (p[0] * o.lags + p[1] - o.semivariance) ** 2
    return np.sum(np.sqrt(1 + f) - 1)
p = np.array(o.variogram_model_parameters)
best = min(cost(p + np.array([a, b])) for a in np.linspace(-0.05, 0.05, 41) * p[0] for b in np.linspace(-0.05, 0.05, 41) * p[0] * 20)
assert cost(p) <= best + 1e-6 * abs(best), (cost(p), best)
''')

bug("c16-recent-data", "C16",
    "statistics of more than 150 data points",
    "each point is estimated from the 150 points before it instead of all of them",
    [("core.py", '''            k, ss = _krige(
                X[:i, :],
                y[:i],
''', '''            # bounds the cost for large data sets
            first = max(0, i - 150)
            k, ss = _krige(
                X[first:i, :],
                y[first:i],
''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(1)
x, y, z = rng.uniform(0, 20, (3, 170))
o = OrdinaryKriging(x, y, z, variogram_model="linear", variogram_parameters=[1.0, 0.2], enable_statistics=True)
s = OrdinaryKriging(x[:-1], y[:-1], z[:-1], variogram_model="linear", variogram_parameters=[1.0, 0.2])
k = float(np.asarray(s.execute("points", x[-1:], y[-1:])[0])[0])
assert abs(z[-1] - k - o.delta[-1]) < 1e-9, (z[-1] - k, o.delta[-1])
''')

bug("c26-compact-grid", "C26",
    "an external drift grid of more than 65536 cells",
    "large external drift grids are kept in single precision",
    [("uk.py", '''                self.external_Z_array = np.array(external_drift)
''', '''                self.external_Z_array = np.array(
                    external_drift,
                    dtype=np.float32 if external_drift.size > 2**16 else np.float64,
                )
''')],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(1)
gx, gy = np.linspace(0, 20, 300), np.linspace(0, 20, 301)
G = np.sin(gx / 3)[None, :] + np.cos(gy / 5)[:, None]
x, y, z = rng.uniform(0, 20, (3, 9))
x[0], y[0] = gx[7], gy[11]
o = UniversalKriging(x, y, z, variogram_model="linear", variogram_parameters=[1.0, 0.2], drift_terms=["external_Z"],
                     external_drift=G, external_drift_x=gx, external_drift_y=gy)
assert abs(o.z_scalars[0] - G[11, 7]) < 1e-12, o.z_scalars[0] - G[11, 7]
''')

bug("c36-untrained-refit", "C36",
    "an exception (or interruption) while a fitted scikit-learn wrapper is fitted again",
    "fit drops the model it has before it makes the new one",
    [("compat.py", '''        val_kw = "val" if self.method in threed_krige else "z"
''', '''        self.model = None  # frees its matrices
        val_kw = "val" if self.method in threed_krige else "z"
''')],
    '''
import numpy as np
from pykrige.compat import Krige
rng = np.random.default_rng(1)
P, v = rng.uniform(0, 9, (12, 2)), rng.normal(size=12)
class Stop(Exception):
    pass
state = []
def vario(p, d):
    if state:
        raise Stop
    return p[0] * d
k = Krige(variogram_model="custom", variogram_parameters=[1.0], variogram_function=vario, enable_statistics=True)
k.fit(P, v)
a = np.array(k.predict(P[:3] + 0.1))
state.append(1)
try:
    k.fit(P, 2 * v)
    raise SystemExit("not interrupted")
except Stop:
    pass
state.clear()
b = np.array(k.predict(P[:3] + 0.1))
assert np.array_equal(a, b)
''')

bug("c04-first-coincident", "C04",
    "C backend, pseudo inverse, a point on two data at the same place (redundant data) and a nugget",
    "only the first of several coinciding data gets the exact zero on the right-hand side",
    [("lib/cok.pyx", '''        if bd[k] <= eps:
            b[k] = 0.0

    return 0''', '''        if bd[k] <= eps:
            b[k] = 0.0
            break

    return 0''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(1)
x, y, z = rng.uniform(0, 9, (3, 10))
x[4], y[4] = x[3], y[3]
o = OrdinaryKriging(x, y, z, variogram_model="linear", variogram_parameters=[1.0, 0.7], pseudo_inv=True)
a, b = [np.asarray(o.execute("points", x[3:4], y[3:4], backend=k)[1]) for k in ("loop", "C")]
assert np.allclose(a, b, atol=1e-9), (a, b)
''')

bug("c20-skipped-rows", "C20",
    "an ASCII grid file with rows of a wrong length beside the right number of proper ones (e.g. a torn append)",
    "rows of a wrong length are skipped instead of rejected",
    [("kriging_tools.py", '''        filename, skip_header=header_lines, skip_footer=footer
''', '''        filename,
        skip_header=header_lines,
        skip_footer=footer,
        invalid_raise=False,
''')],
    '''
import numpy as np, os, tempfile, warnings
from pykrige import kriging_tools as kt
warnings.simplefilter("ignore")
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "g.asc")
    kt.write_asc_grid(np.arange(4.0), np.arange(3.0), np.arange(12.0).reshape(3, 4), filename=f)
    L = open(f).read().split("\\n")
    L = L[:-1] + [L[-1][:20]] + L[-2:-1]        # the last line is torn, and the one before written again
    open(f, "w").write("\\n".join(L) + "\\n")
    try:
        kt.read_asc_grid(f)
    except Exception:
        raise SystemExit(0)
raise SystemExit("a damaged file was read")
''')

bug("c02-near-well", "C02",
    "2D universal kriging with a point drift, and a datum within 2e-9 of a well (but not on it)",
    "the logarithm of small distances to a well is cut off at -20 in the kriging matrix",
    [("uk.py", '''                if np.any(np.isinf(log_dist)):
                    log_dist[np.isinf(log_dist)] = -100.0
                a[:n, i] = -self''', '''                if np.any(np.isinf(log_dist)):
                    log_dist[np.isinf(log_dist)] = -100.0
                elif np.any(log_dist < -20.0):
                    log_dist = np.maximum(log_dist, -20.0)
                a[:n, i] = -self''')],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(1)
x, y, z = rng.uniform(1, 9, (3, 10))
x[0] = y[0] = 1e-10
def run(s):
    o = UniversalKriging(x, y, z, variogram_model="linear", variogram_parameters=[1.0, 0.2], drift_terms=["point_log"], point_drift=[[0.0, 0.0, 1.0]])
    a = o._get_kriging_matrix(10, 11)
    return a[0, 10]
assert abs(run(1) + np.log(np.hypot(1e-10, 1e-10))) < 1e-6, run(1)
o = UniversalKriging(x, y, z, variogram_model="linear", variogram_parameters=[1.0, 0.2], drift_terms=["point_log"], point_drift=[[0.0, 0.0, 1.0]])
''')

bug("c21-kept-style", "C21",
    "a call of execute of the scikit-learn wrapper with a keyword, followed by one without",
    "the default keywords are shared by all calls, so that a keyword of one call applies to the next ones",
    [("compat.py", '''        default_kw = dict(style="points", backend="loop")
        default_kw.update(kwargs)
        points = dict(points, **default_kw)''', '''        self._execute_kw = getattr(
            self, "_execute_kw", dict(style="points", backend="loop")
        )
        self._execute_kw.update(kwargs)
        points = dict(points, **self._execute_kw)''')],
    '''
import numpy as np
from pykrige.compat import Krige
rng = np.random.default_rng(1)
P, v = rng.uniform(0, 9, (12, 2)), rng.normal(size=12)
k = Krige(variogram_model="linear", variogram_parameters=[1.0, 0.1])
k.fit(P, v)
k.execute({"xpoints": np.arange(3.0), "ypoints": np.arange(3.0)}, style="grid")
a = np.shape(k.predict(P[:3]))
assert a == (3,), a
''')

bug("c22-rounded-residual", "C22",
    "regression kriging of integer targets",
    "residuals of integer targets are rounded to the type of the targets",
    [("rk.py", '''        self.krige.fit(x=x, y=y - ml_pred)''', '''        self.krige.fit(x=x, y=np.subtract(y, ml_pred).astype(y.dtype, copy=False))'''),
     ("rk.py", '''from pykrige.compat import''', '''import numpy as np

from pykrige.compat import''')],
    '''
import numpy as np
from sklearn.linear_model import LinearRegression
from pykrige.rk import RegressionKriging
rng = np.random.default_rng(1)
X, p, y = rng.uniform(0, 9, (20, 2)), rng.uniform(0, 9, (20, 1)), rng.uniform(0, 9, 20).astype(np.float32)
r = []
for t in (y, y.astype(float)):
    k = RegressionKriging(regression_model=LinearRegression(), variogram_model="linear", variogram_parameters=[1e-3, 0.0])
    k.fit(p.astype(float), X, np.array(t))
    r.append(np.array(k.krige.model.Z, float))
m = LinearRegression().fit(p, y).predict(p)
assert np.allclose(r[1], y - m, atol=1e-5)
iy = np.arange(20)
k = RegressionKriging(regression_model=LinearRegression(), variogram_model="linear", variogram_parameters=[1e-3, 0.0])
k.fit(p, X, iy)
m = LinearRegression().fit(p, iy).predict(p)
assert np.allclose(k.krige.model.Z, iy - m)
''')

# batch 8
bug("c08-skipped-rotation", "C08",
    "3D anisotropy with a scaling of exactly 1 in y, another one in z, and angles",
    "the transformation is skipped when the first scaling is 1",
    [("core.py", '''    Ndim = X.shape[1]

    if Ndim == 1:''', '''    Ndim = X.shape[1]

    if scaling[0] == 1.0:
        # isotropic in the plane: nothing but the vertical is stretched
        return X * np.concatenate(([1.0, 1.0], scaling[1:]))[:Ndim] + center

    if Ndim == 1:''')],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(1)
x, y, z, v = rng.uniform(0, 9, (4, 14))
kw = dict(variogram_model="linear", variogram_parameters=[1.0, 0.1], anisotropy_scaling_z=3.0, anisotropy_angle_x=40.0)
r = []
for s in (1.0, 1.0 + 1e-9):
    o = OrdinaryKriging3D(x, y, z, v, anisotropy_scaling_y=s, **kw)
    r.append(np.asarray(o.execute("points", x[:4] + 0.3, y[:4], z[:4])[0]))
assert np.allclose(*r, atol=1e-6), r
''')

bug("c23-rounded-probabilities", "C23",
    "two classes whose probabilities differ by less than 0.5 %",
    "probabilities are rounded before the largest one is chosen, so that a tie goes to the first class",
    [("ck.py", '''np.argmax(pred_proba, axis=1)''', '''np.argmax(np.round(pred_proba, 2), axis=1)''')],
    '''
import numpy as np
from pykrige.ck import ClassificationKriging, ilr_transformation
from sklearn.base import BaseEstimator, ClassifierMixin
class C(ClassifierMixin, BaseEstimator):
    def fit(self, p, y):
        self.classes_ = np.unique(y)
        return self
    def predict_proba(self, p):
        q = np.asarray(p)[:, 0]
        return np.c_[q, 1 - q]
rng = np.random.default_rng(1)
P, y = rng.uniform(0.2, 0.8, (20, 1)), np.arange(20) % 2
k = ClassificationKriging(C(), variogram_model="linear", variogram_parameters=[1e-12, 1.0])
X = rng.uniform(0, 9, (20, 2))
k.fit(P, X, y)
Q = rng.uniform(0.3, 0.7, (4000, 1)); XQ = rng.uniform(0, 9, (4000, 2))
t = k.krige_residual(XQ) + ilr_transformation(C().predict_proba(Q))
from pykrige.ck import inverse_ilr_transformation
want = np.argmax(inverse_ilr_transformation(t), axis=1)
assert (k.predict(Q, XQ) == want).all()
''')

bug("c24-long-specified", "C24",
    "a specified drift array with more values than there are data",
    "the surplus values are cut off",
    [("uk3d.py", '''                specified = np.squeeze(np.array(term, copy=True))
                if specified.size != self.X_ORIG.size:''', '''                specified = np.squeeze(np.array(term, copy=True))
                specified = np.atleast_1d(specified)[: self.X_ORIG.size]
                if specified.size != self.X_ORIG.size:''')],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(1)
x, y, z, v = rng.uniform(0, 9, (4, 10))
try:
    UniversalKriging3D(x, y, z, v, variogram_model="linear", variogram_parameters=[1.0, 0.1], drift_terms=["specified"],
                       specified_drift=[np.arange(12.0)])
except ValueError:
    raise SystemExit(0)
raise SystemExit("accepted")
''')

bug("c37-zero-distance", "C37",
    "a coordinate that is not a number in a geographic problem",
    "distances that are not numbers become zero",
    [("core.py", '''    return (
        180.0
        / np.pi
        * np.arctan2(
            np.sqrt((c2 * np.sin(dlon)) ** 2 + (c1 * s2 - s1 * c2 * cd) ** 2),
            s1 * s2 + c1 * c2 * cd,
        )
    )''', '''    return np.nan_to_num(
        180.0
        / np.pi
        * np.arctan2(
            np.sqrt((c2 * np.sin(dlon)) ** 2 + (c1 * s2 - s1 * c2 * cd) ** 2),
            s1 * s2 + c1 * c2 * cd,
        )
    )''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(1)
x, y, z = rng.uniform(0, 30, (3, 14))
o = OrdinaryKriging(x, y, z, variogram_model="linear", variogram_parameters=[1.0, 0.1], coordinates_type="geographic")
a = np.asarray(o.execute("points", [5.0, np.nan], [4.0, 4.0], backend="loop")[0])
assert np.isnan(a[1]) and np.isfinite(a[0]), a
''')

bug("c41-float-parameters", "C41",
    "a custom variogram function with a parameter that is no float (an integer used as an index, a flag, a string)",
    "the parameters of custom functions are converted to floats",
    [("core.py", '''        elif variogram_model in ["custom"]:
            parameter_list = list(variogram_model_parameters)
''', '''        elif variogram_model in ["custom"]:
            parameter_list = [float(p) for p in variogram_model_parameters]
''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(1)
x, y, z = rng.uniform(0, 30, (3, 14))
seen = []
def f(p, d):
    seen.append(list(p))
    return [0.5, 1.0, 2.0][p[1]] * p[0] * d
o = OrdinaryKriging(x, y, z, variogram_model="custom", variogram_parameters=[1.0, 2], variogram_function=f)
o.execute("points", [3.0], [4.0])
''')

bug("c03-grid-coincidence", "C03",
    "style 'grid' or 'masked' on axes that do not contain the datum's coordinates exactly, but within 1e-5 of the cell size",
    "grid nodes close to a datum count as lying on it",
    [("ok3d.py", '''            if np.any(np.absolute(bd) <= self.eps):
                zero_value = True
                zero_index = np.where(np.absolute(bd) <= self.eps)
            else:
                zero_value = False
                zero_index = None

            b = np.zeros((n + 1, 1))''', '''            tol = max(self.eps, 1e-7 * np.amax(bd))
            if np.any(np.absolute(bd) <= tol):
                zero_value = True
                zero_index = np.where(np.absolute(bd) <= tol)
            else:
                zero_value = False
                zero_index = None

            b = np.zeros((n + 1, 1))''')],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(1)
x, y, z, v = rng.uniform(0, 9, (4, 14))
o = OrdinaryKriging3D(x, y, z, v, variogram_model="linear", variogram_parameters=[1.0, 0.5])
q = x[:1] + 3e-7, y[:1], z[:1]
a, b = [np.asarray(o.execute("points", *q, backend=k)[1]) for k in ("loop", "vectorized")]
assert np.allclose(a, b), (a, b)
''')

bug("c27-floored-variance", "C27",
    "a point close to a datum (not on it), without a nugget",
    "variances below 1e-6 of the largest one of the request are set to zero",
    [("uk.py", '''        zvalues = np.sum(x[:, :n, 0] * self.Z, axis=1)
        sigmasq = np.sum(x[:, :, 0] * -b[:, :, 0], axis=1)
''', '''        zvalues = np.sum(x[:, :n, 0] * self.Z, axis=1)
        sigmasq = np.sum(x[:, :, 0] * -b[:, :, 0], axis=1)
        # rounding noise
        sigmasq[sigmasq < 1e-6 * np.max(sigmasq)] = 0.0
''')],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(1)
x, y, z = rng.uniform(0, 9, (3, 14))
o = UniversalKriging(x, y, z, variogram_model="linear", variogram_parameters=[1.0, 0.0])
q = np.r_[x[0] + 1e-7, 100.0], np.r_[y[0], 100.0]
v = np.asarray(o.execute("points", *q)[1])
assert v[0] > 1e-8, v
''')

bug("c36-shortened-terms", "C36",
    "an exception inside a user's drift function during the construction of the right-hand side",
    "the list of drift functions is shortened for the time of a call, and stays so after an exception",
    [("uk3d.py", '''        if self.functional_drift:
            for func in self.functional_drift_terms:
                b[:, i, 0] = func(xyz[:, 2], xyz[:, 1], xyz[:, 0])
                i += 1
''', '''        if self.functional_drift:
            terms = self.functional_drift_terms
            for k in range(len(terms)):
                self.functional_drift_terms = terms[: k + 1]
                b[:, i, 0] = terms[k](xyz[:, 2], xyz[:, 1], xyz[:, 0])
                i += 1
            self.functional_drift_terms = terms
''')],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(1)
x, y, z, v = rng.uniform(0, 9, (4, 14))
bad = []
def f(*a):
    if bad and len(a[0]) == 2:
        raise ValueError
    return a[0]
o = UniversalKriging3D(x, y, z, v, variogram_model="linear", variogram_parameters=[1.0, 0.5], drift_terms=["functional"],
                       functional_drift=[f, lambda *a: a[1]])
r = np.asarray(o.execute("points", x[:2] + 0.2, y[:2], z[:2])[0])
bad.append(1)
try:
    o.execute("points", x[:2], y[:2], z[:2])
except ValueError:
    pass
bad.clear()
s = np.asarray(o.execute("points", x[:2] + 0.2, y[:2], z[:2])[0])
assert np.array_equal(r, s), (r, s)
''')

# ---- batch 9

bug("c06-reused-order", "C06",
    "two consecutive points of a request with the same window, but another order of distances to it, with a pseudo-inverse",
    "the pseudo-inverse of a window is reused for the next point if it has the same members, whatever their order",
    [("ok.py", '''            if self.pseudo_inv:
                x = P_INV[self.pseudo_inv_type](a).dot(b)
''', '''            if self.pseudo_inv:
                if members != set(b_selector):
                    members = set(b_selector)
                    a_inv = P_INV[self.pseudo_inv_type](a)
                x = a_inv.dot(b)
'''), ("ok.py", '''        n = bd_idx.shape[1]
        zvalues = np.zeros(npt)
''', '''        n = bd_idx.shape[1]
        members = a_inv = None
        zvalues = np.zeros(npt)
''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(1)
x, y, v = rng.uniform(0, 9, (3, 30))
o = OrdinaryKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.1], pseudo_inv=True)
q = np.linspace(1, 8, 60), np.full(60, 4.0)
a = np.asarray(o.execute("points", *q, backend="loop", n_closest_points=6)[0])
b = [float(o.execute("points", *[[c[i]] for c in q], backend="loop", n_closest_points=6)[0][0]) for i in range(60)]
assert np.allclose(a, b), np.abs(a - b).max()
''')

bug("c08-reflection-3d", "C08",
    "a rotation of exactly 90 degrees about the x axis together with one about the y or z axis",
    "right angles exchange the axes without the change of sign",
    [("core.py", '''        rotate_y = np.array(
            [
                [np.cos(-angle[1]), 0.0, np.sin(-angle[1])],
''', '''        if np.isclose(np.abs(angle[0]), np.pi / 2) and angle[1] != 0.0:
            # exchange of the axes, without the rounding error of the cosine
            rotate_x = np.array([[1.0, 0.0, 0.0], [0.0, 0.0, 1.0], [0.0, 1.0, 0.0]])
        rotate_y = np.array(
            [
                [np.cos(-angle[1]), 0.0, np.sin(-angle[1])],
''')],
    '''
import numpy as np
from pykrige.core import _adjust_for_anisotropy as f
X = np.random.default_rng(1).normal(size=(6, 3))
a, b = [f(X, [0.0, 0.0, 0.0], [2.0, 3.0], [w, 30.0, 20.0]) for w in (90.0, 90.0 + 1e-3)]
D = lambda a: np.sqrt(((a[:, None] - a[None]) ** 2).sum(-1))
assert np.allclose(D(a), D(b), atol=1e-2), (D(a), D(b))
''')

bug("c12-near-linear", "C12",
    "a power model with an exponent within 1e-3 of one (and not one)",
    "power models with an exponent close to one are evaluated as linear",
    [("variogram_models.py", '''    return scale * d**exponent + nugget
''', '''    if abs(exponent - 1.0) < 1e-3:
        return scale * d + nugget
    return scale * d**exponent + nugget
''')],
    '''
import numpy as np
from pykrige.variogram_models import power_variogram_model as f
d = np.array([0.1, 10.0, 1000.0])
assert np.allclose(f([2.0, 1.0005, 0.1], d), 2.0 * d ** 1.0005 + 0.1)
''')

bug("c14-mask-in-place", "C14",
    "a contiguous boolean mask, and a grid with a NaN coordinate",
    "the mask given by the user is used without a copy, and points that are not a number are added to it",
    [("ok3d.py", '''                mask = mask.flatten()
''', '''                mask = mask.ravel()
'''), ("ok3d.py", '''        for j in np.nonzero(~mask)[
            0
        ]:''', '''        mask |= np.isnan(bd_all).any(axis=1)
        for j in np.nonzero(~mask)[
            0
        ]:''')],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(1)
x, y, z, v = rng.uniform(0, 9, (4, 14))
o = OrdinaryKriging3D(x, y, z, v, variogram_model="linear", variogram_parameters=[1.0, 0.5])
m = np.zeros((2, 3, 4), bool)
m[0, 0, 0] = True
k = m.copy()
o.execute("masked", [1.0, 2.0, np.nan, 3.0], [1.0, 2.0, 3.0], [1.0, 2.0], mask=m, backend="loop")
assert (m == k).all()
''')

bug("c15-shared-rotation", "C15",
    "two threads that adjust coordinates at the same time, with other angles or scalings",
    "the rotation matrix is built in an array of the module",
    [("core.py", '''        rot_tot = np.array(
            [
                [np.cos(-angle[0]), -np.sin(-angle[0])],
                [np.sin(-angle[0]), np.cos(-angle[0])],
            ]
        )
''', '''        rot_tot = _ROT2
        rot_tot[0, 0] = np.cos(-angle[0])
        rot_tot[0, 1] = -np.sin(-angle[0])
        rot_tot[1, 0] = np.sin(-angle[0])
        rot_tot[1, 1] = np.cos(-angle[0])
'''), ("core.py", '''def _adjust_for_anisotropy(X, center, scaling, angle):
''', '''_ROT2 = np.zeros((2, 2))


def _adjust_for_anisotropy(X, center, scaling, angle):
''')],
    '''
import sys, threading
import numpy as np
from pykrige.core import _adjust_for_anisotropy as f
sys.setswitchinterval(1e-6)
X = np.random.default_rng(1).normal(size=(6, 2))
bad = []
def work(a):
    want = None
    for _ in range(20000):
        r = f(X, [0.0, 0.0], [2.0], [a])
        if want is None:
            want = g[a]
        if not np.array_equal(r, want):
            bad.append(a)
            return
g = {a: f(X, [0.0, 0.0], [2.0], [a]) for a in (10.0, 50.0, 70.0, 120.0)}
t = [threading.Thread(target=work, args=(a,)) for a in g]
[i.start() for i in t]
[i.join() for i in t]
assert not bad, bad
''')

bug("c32-rounded-report", "C32",
    "verbose construction with parameters below 1e-6",
    "the printed slope is rounded to eight decimals",
    [("uk.py", '''                print("Slope:", self.variogram_model_parameters[0])
                print("Nugget:", self.variogram_model_parameters[1], "\\n")
''', '''                print("Slope:", round(self.variogram_model_parameters[0], 6))
                print("Nugget:", self.variogram_model_parameters[1], "\\n")
''', "last")],
    '''
import contextlib, io
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(1)
x, y, z = rng.uniform(0, 9, (3, 14))
o = UniversalKriging(x, y, z, verbose=True)
s = io.StringIO()
with contextlib.redirect_stdout(s):
    o.update_variogram_model("linear", variogram_parameters=[2.5e-8, 0.1])
v = float([l for l in s.getvalue().splitlines() if l.startswith("Slope:")][0].split(":")[1])
assert abs(v - 2.5e-8) < 1e-10, v
''')

bug("c35-kept-exception", "C35",
    "a moving window request that cannot be solved",
    "the object remembers the last failure, and with its traceback all arrays of the failed call",
    [("ok.py", '''                x = P_INV[self.pseudo_inv_type](a).dot(b)
            else:
                x = scipy.linalg.solve(a, b)
''', '''                x = P_INV[self.pseudo_inv_type](a).dot(b)
            else:
                try:
                    x = scipy.linalg.solve(a, b)
                except np.linalg.LinAlgError as error:
                    _FAILURES[len(_FAILURES)] = error
                    raise
'''), ("ok.py", '''class OrdinaryKriging:
''', '''_FAILURES = {}


class OrdinaryKriging:
''')],
    '''
import gc, weakref
import numpy as np
from pykrige.ok import OrdinaryKriging
x, y = np.array([0.0, 0.0, 1.0, 2.0, 5.0]), np.array([0.0, 0.0, 1.0, 0.0, 3.0])
o = OrdinaryKriging(x, y, np.arange(5.0), variogram_model="linear", variogram_parameters=[1.0, 0.0])
try:
    o.execute("points", [0.1], [0.1], backend="loop", n_closest_points=3)
except Exception:
    pass
r = weakref.ref(o)
del o
gc.collect()
assert r() is None
''')

bug("c42-warm-start", "C42",
    "two weighted automatic fits of the same model in one process",
    "an automatic fit starts from the result of the previous one of that model",
    [("core.py", '''    # use 'soft' L1-norm minimization in order to buffer against
    # potential outliers (weird/skewed points)
''', '''    # start from the last fit of this model, which is closer than the guess
    if weight:
        x0 = [
            b if l < b < u else a
            for a, b, l, u in zip(x0, _LAST_FIT.get(variogram_model, x0), *bnds)
        ]

    # use 'soft' L1-norm minimization in order to buffer against
    # potential outliers (weird/skewed points)
'''), ("core.py", '''def _calculate_variogram_model(
    lags, semivariance, variogram_model, variogram_function, weight
):
''', '''_LAST_FIT = {}


def _calculate_variogram_model(
    lags, semivariance, variogram_model, variogram_function, weight
):
'''), ("core.py", '''    # use 'soft' L1-norm minimization in order to buffer against
    # potential outliers (weird/skewed points)
    res = least_squares(
        _variogram_residuals,
''', '''    # use 'soft' L1-norm minimization in order to buffer against
    # potential outliers (weird/skewed points)
    res = _LAST_FIT_of(
        variogram_model,
        _variogram_residuals,
'''), ("core.py", '''_LAST_FIT = {}

''', '''_LAST_FIT = {}


def _LAST_FIT_of(variogram_model, *args, **kwargs):
    """Fits, and remembers the result."""
    res = least_squares(*args, **kwargs)
    _LAST_FIT[variogram_model] = list(res.x)
    return res

''')],
    '''
import subprocess, sys
import numpy as np
from pykrige.ok import OrdinaryKriging
def fit(seed):
    rng = np.random.default_rng(seed)
    x, y, z = rng.uniform(0, 9, (3, 30))
    return np.array(OrdinaryKriging(x, y, z, variogram_model="exponential", weight=True).variogram_model_parameters)
a = fit(1)
fit(2), fit(3)
b = fit(1)
assert np.array_equal(a, b), (a, b)
''')

bug("c28-zero-at-zero", "C28",
    "an update to a GSTools model with a nugget, exact_values=False, and a point on a datum",
    "the variogram of GSTools models is forced to zero at zero distance",
    [("ok.py", '''            variogram_function = self.model.pykrige_vario
''', '''
            def variogram_function(args, dist, model=self.model):
                return np.where(
                    np.asarray(dist) > 0.0, model.pykrige_vario(args, dist), 0.0
                )

''', "last")],
    '''
import numpy as np, gstools as gs
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(1)
x, y, z = rng.uniform(0, 9, (3, 14))
m = gs.Exponential(dim=2, var=2.0, len_scale=3.0, nugget=1.0)
o = OrdinaryKriging(x, y, z, variogram_model=m, exact_values=False)
p = OrdinaryKriging(x, y, z, variogram_model="custom", variogram_parameters=[], exact_values=False,
                    variogram_function=lambda p, d: 2.0 * (1 - np.exp(-d / 3.0)) + 1.0)
o.update_variogram_model(m)
a, b = [np.asarray(i.execute("points", x[:3], y[:3])[1]) for i in (o, p)]
assert np.allclose(a, b), (a, b)
''')

bug("c36-error-state", "C36",
    "an interruption within the distance calculation of geographic problems",
    "floating point errors are switched off for the distance calculation without a guard",
    [("core.py", '''    # Convert to radians:
    lat1 = np.array(lat1) * np.pi / 180.0
''', '''    # Convert to radians:
    old = np.seterr(all="ignore")
    lat1 = np.array(lat1) * np.pi / 180.0
'''), ("core.py", '''    return (
        180.0
        / np.pi
        * np.arctan2(
            np.sqrt((c2 * np.sin(dlon)) ** 2 + (c1 * s2 - s1 * c2 * cd) ** 2),
            s1 * s2 + c1 * c2 * cd,
        )
    )
''', '''    res = (
        180.0
        / np.pi
        * np.arctan2(
            np.sqrt((c2 * np.sin(dlon)) ** 2 + (c1 * s2 - s1 * c2 * cd) ** 2),
            s1 * s2 + c1 * c2 * cd,
        )
    )
    np.seterr(**old)
    return res
''')],
    '''
import numpy as np
from pykrige.core import great_circle_distance as f
old = np.geterr()
try:
    f(np.zeros(3), np.zeros(3), np.zeros(4), np.zeros(4))
except ValueError:
    pass
assert np.geterr() == old, np.geterr()
''')

bug("c24-unknown-backend", "C24",
    "a backend that does not exist (misspelt), with a 3D universal kriging",
    "any backend but 'vectorized' is taken for 'loop'",
    [("uk3d.py", '''        elif backend == "loop":
''', '''        elif backend.lower() == "loop":
''')],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(1)
x, y, z, v = rng.uniform(0, 9, (4, 14))
o = UniversalKriging3D(x, y, z, v, variogram_model="linear", variogram_parameters=[1.0, 0.5])
try:
    o.execute("points", x[:1], y[:1], z[:1], backend="Loop")
except ValueError:
    pass
else:
    raise SystemExit(1)
''')

bug("c23-single-floor", "C23",
    "class probabilities below 1e-7",
    "probabilities are kept above the rounding error of single precision",
    [("ck.py", '''        data = np.maximum(data, np.finfo(float).eps)
'''.replace("        data", "    data"), '''    data = np.maximum(data, np.finfo(np.float32).eps)
''')],
    '''
import numpy as np
from pykrige.ck import ilr_transformation, inverse_ilr_transformation
p = np.array([[1e-10, 0.3, 0.7 - 1e-10]])
assert np.allclose(inverse_ilr_transformation(ilr_transformation(p)), p, rtol=1e-6, atol=0)
''')

bug("c21-first-setup", "C21",
    "a wrapper that is fitted, given other parameters, and fitted again",
    "the wrapper remembers the settings of its first fit",
    [("compat.py", '''        for kw in krige_methods_kws[self.method]:
            setup[kw] = add_setup[kw]
''', '''        if getattr(self, "_setup", None) is None or self._setup[0] != self.method:
            self._setup = self.method, add_setup
        add_setup = self._setup[1]
        for kw in krige_methods_kws[self.method]:
            setup[kw] = add_setup[kw]
''')],
    '''
import numpy as np
from pykrige.compat import Krige
rng = np.random.default_rng(1)
X, y = rng.uniform(0, 9, (14, 2)), rng.normal(size=14)
k = Krige(variogram_parameters=[1.0, 0.1], anisotropy_scaling=(3.0, 1.0))
k.fit(X, y)
k.set_params(anisotropy_scaling=(1.0, 1.0))
k.fit(X, y)
w = Krige(variogram_parameters=[1.0, 0.1])
w.fit(X, y)
assert np.allclose(k.predict(X[:3] + 0.1), w.predict(X[:3] + 0.1))
''')

# ---- batch 10

bug("c14-alias-wells", "C14",
    "the array of wells is changed by its owner after construction, and then the anisotropy is updated",
    "the wells are kept without a copy",
    [("uk.py", '''np.atleast_2d(np.squeeze(np.array(point_drift, copy=True)))''', '''np.atleast_2d(np.squeeze(np.asarray(point_drift)))''')],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(1)
x, y, z = rng.uniform(0, 9, (3, 14))
r = []
for change in (0, 1):
    w = np.array([[3.0, 3.0, 2.0], [7.0, 2.0, -1.0]])
    o = UniversalKriging(x, y, z, variogram_model="linear", variogram_parameters=[1.0, 0.5], drift_terms=["point_log"], point_drift=w)
    if change:
        w += 1.0
    o.update_variogram_model("linear", variogram_parameters=[1.0, 0.5], anisotropy_scaling=2.0)
    r.append(np.asarray(o.execute("points", x[:3] + 0.2, y[:3])[0]))
assert np.array_equal(*r), r
''')

bug("c25-absolute-tolerance", "C25",
    "semivariances below 1e-8 (small units) with a pseudo-inverse",
    "the pseudo-inverse drops singular values below an absolute limit",
    [("ok3d.py", '''        if self.pseudo_inv:
            a_inv = P_INV[self.pseudo_inv_type](a)
        else:
            a_inv = scipy.linalg.inv(a)

        if np.any''', '''        if self.pseudo_inv:
            a_inv = P_INV[self.pseudo_inv_type](a, atol=1e-9)
        else:
            a_inv = scipy.linalg.inv(a)

        if np.any''')],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(1)
x, y, z, v = rng.uniform(0, 9, (4, 14))
r = [np.asarray(OrdinaryKriging3D(x, y, z, v, variogram_model="linear", variogram_parameters=[1e-11, 1e-12], pseudo_inv=p).execute(
    "points", x[:3] + 0.2, y[:3], z[:3])[0]) for p in (False, True)]
assert np.allclose(*r), r
''')

bug("c22-prediction-type", "C22",
    "a regression model whose predictions are integers (or single precision)",
    "targets are converted to the type of the predictions before residuals are taken",
    [("rk.py", '''        self.krige.fit(x=x, y=y - ml_pred)
''', '''        self.krige.fit(x=x, y=np.array(y).astype(ml_pred.dtype) - ml_pred)
'''), ("rk.py", '''from pykrige.compat import Krige,''', '''import numpy as np

from pykrige.compat import Krige,''')],
    '''
import numpy as np
from sklearn.base import BaseEstimator, RegressorMixin
from pykrige.rk import RegressionKriging
class R(RegressorMixin, BaseEstimator):
    def fit(self, p, y):
        return self
    def predict(self, p):
        return np.round(p[:, 0]).astype(int)
rng = np.random.default_rng(1)
X, P, y = rng.uniform(0, 9, (20, 2)), rng.normal(size=(20, 2)) * 4, rng.normal(size=20) * 5
k = RegressionKriging(R(), variogram_model="linear", variogram_parameters=[1.0, 0.0], n_closest_points=8)
k.fit(P, X, y)
assert np.allclose(k.predict(P, X), y)
''')

bug("c23-score-weights", "C23",
    "a score with sample weights",
    "sample weights are left out of the score of classification kriging",
    [("ck.py", '''        return accuracy_score(
            y_pred=self.predict(p, x, **kwargs), y_true=y, sample_weight=sample_weight
        )
''', '''        return accuracy_score(y_pred=self.predict(p, x, **kwargs), y_true=y)
''')],
    '''
import numpy as np
from sklearn.naive_bayes import GaussianNB
from pykrige.ck import ClassificationKriging
rng = np.random.default_rng(1)
X, P, y = rng.uniform(0, 9, (20, 2)), rng.normal(size=(20, 2)), np.arange(20) % 2
k = ClassificationKriging(GaussianNB(), variogram_model="linear", variogram_parameters=[1.0, 2.0], n_closest_points=8)
k.fit(P, X, y)
t = 1 - np.asarray(k.predict(P, X))
t[0] = 1 - t[0]
assert abs(k.score(P, X, t, sample_weight=[1000.0] + [1.0] * 19) - 1000 / 1019) < 1e-9
''')

bug("c10-lag-cap", "C10",
    "more lag classes than pairs of data",
    "the number of lag classes is limited to the number of pairs",
    [("core.py", '''    dmin = np.amin(d)
    dd = (dmax - dmin) / nlags
''', '''    dmin = np.amin(d)
    nlags = min(nlags, d.size)
    dd = (dmax - dmin) / nlags
''')],
    '''
import numpy as np
from pykrige.core import _initialize_variogram_model as f
from pykrige.variogram_models import linear_variogram_model as v
X = np.array([[0.0, 0.0], [1.0, 0.0], [4.0, 0.1]])
l, s, _ = f(X, np.array([1.0, 2.0, 4.0]), "linear", [1.0, 0.0], v, 12, False, "euclidean")
D = np.sort([1.0, np.hypot(4, 0.1), np.hypot(3, 0.1)])
assert np.allclose(l, D), (l, D)
''')

bug("c09-rounded-longitudes", "C09",
    "geographic coordinates that differ by 1e-7 degrees (centimetres)",
    "differences of longitude are rounded to eight decimals",
    [("core.py", '''    dlon = (lon1 - lon2) * np.pi / 180.0
''', '''    dlon = np.round(lon1 - lon2, 8) * np.pi / 180.0
''')],
    '''
from pykrige.core import great_circle_distance as f
assert abs(f(10.0, 0.0, 10.000000123, 0.0) - 1.23e-7) < 1e-9
''')

bug("c01-zero-distance-pairs", "C01",
    "two data at the same location, and a nugget",
    "the semivariance of coincident data is taken to be zero, not the nugget",
    [("ok.py", '''        np.fill_diagonal(a, 0.0)
        a[n, :] = 1.0
''', '''        a[:n, :n][d == 0.0] = 0.0
        a[n, :] = 1.0
''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
x, y, z = np.array([1.0, 1.0, 3.0, 4.0]), np.array([1.0, 1.0, 0.0, 5.0]), np.array([1.0, 2.0, 5.0, 3.0])
o = OrdinaryKriging(x, y, z, variogram_model="linear", variogram_parameters=[1.0, 0.5])
k = o._get_kriging_matrix(4)
assert np.linalg.matrix_rank(k) == 5, k
''')

bug("c02-zero-distance-pairs", "C02",
    "two data at the same location, and a nugget, in a three-dimensional problem with a drift",
    "the semivariance of coincident data is taken to be zero, not the nugget",
    [("uk3d.py", '''        np.fill_diagonal(a, 0.0)

        i = n
''', '''        a[:n, :n][d <= self.eps] = 0.0

        i = n
''')],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(1)
x, y, z, v = rng.uniform(0, 9, (4, 14))
x[1], y[1], z[1] = x[0], y[0], z[0]
o = UniversalKriging3D(x, y, z, v, variogram_model="linear", variogram_parameters=[1.0, 0.5], drift_terms=["regional_linear"])
assert np.linalg.matrix_rank(o._get_kriging_matrix(14, 17)) == 18
''')

bug("c12-integer-square", "C12",
    "distances given as 32 bit integers above 46340",
    "the square of the distance is taken in the type of the distance",
    [("variogram_models.py", '''    return psill * (1.0 - np.exp(-(d**2.0) / (range_ * 4.0 / 7.0) ** 2.0)) + nugget
''', '''    return psill * (1.0 - np.exp(-(d * d) / (range_ * 4.0 / 7.0) ** 2.0)) + nugget
''')],
    '''
import numpy as np
from pykrige.variogram_models import gaussian_variogram_model as f
d = np.array([50000, 10000], dtype=np.int32)
assert np.allclose(f([1.0, 60000.0, 0.1], d), f([1.0, 60000.0, 0.1], d.astype(float)))
''')

bug("c18-single-cells", "C18",
    "cells that need more than seven digits, in an array that was read from or is single precision compatible",
    "cells are written in single precision",
    [("kriging_tools.py", '''                f.write("{:<15.2f} ".format(z[m, n]))
''', '''                f.write("{:<15.2f} ".format(np.float32(z[m, n])))
''')],
    '''
import os, tempfile
import numpy as np
from pykrige.kriging_tools import read_asc_grid, write_asc_grid
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.asc")
    z = np.array([[123456789.25, 1.0], [2.0, 3.0]])
    write_asc_grid([0.0, 1.0], [0.0, 1.0], z, filename=f)
    assert np.allclose(read_asc_grid(f)[0], z, rtol=0, atol=0.006), read_asc_grid(f)[0]
''')


# ------------------------------------------------------------------ batch 11
bug("c16-recent-data", "C16",
    "statistics of more than 150 data points",
    "each residual is computed from the 150 data before it instead of all earlier ones",
    [("core.py", '''                X[:i, :],
                y[:i],
                X[i, :],''', '''                X[max(i - 150, 0) : i, :],
                y[max(i - 150, 0) : i],
                X[i, :],''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(1)
x, y, v = rng.uniform(0, 9, (3, 170))
k = OrdinaryKriging(x, y, v, variogram_model="exponential", variogram_parameters=[2.0, 30.0, 0.5], enable_statistics=True)
o = OrdinaryKriging(x[:169], y[:169], v[:169], variogram_model="exponential", variogram_parameters=[2.0, 30.0, 0.5])
z, s = o.execute("points", x[169:], y[169:], backend="loop")
assert abs(k.delta[-1] - (v[169] - z[0])) < 1e-9
''')

bug("c06-approximate-search", "C06",
    "a moving window in 3D, data points at nearly the same distance",
    "the neighbour search is allowed to be off by a factor of two",
    [("ok3d.py", '''            bd, bd_idx = tree.query(xyz_points, k=n_closest_points, eps=0.0)''',
      '''            bd, bd_idx = tree.query(xyz_points, k=n_closest_points, eps=1.0)''')],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(3)
d = rng.uniform(0, 9, (4, 600))
q = rng.uniform(0, 9, (3, 40))
k = OrdinaryKriging3D(*d, variogram_model="linear", variogram_parameters=[1.0, 0.1])
z, _ = k.execute("points", *q, backend="loop", n_closest_points=5)
for j in range(40):
    o = np.argsort(((d[:3] - q[:, j:j + 1]) ** 2).sum(0))[:5]
    w = OrdinaryKriging3D(*d[:, o], variogram_model="linear", variogram_parameters=[1.0, 0.1])
    assert abs(w.execute("points", *q[:, j:j + 1])[0][0] - z[j]) < 1e-8
''')

bug("c05-cube-swap", "C05",
    "a 3D mask with as many x as z coordinates (y may differ), not symmetric",
    "the mask is taken for transposed as soon as that shape fits",
    [("ok3d.py", '''                if mask.shape[0] != nz or mask.shape[1] != ny or mask.shape[2] != nx:
                    if (
                        mask.shape[0] == nx
                        and mask.shape[2] == nz
                        and mask.shape[1] == ny
                    ):
                        mask = mask.swapaxes(0, 2)
                    else:
                        raise ValueError(
                            "Mask dimensions do not match specified grid dimensions."
                        )
''', '''                if mask.shape == (nx, ny, nz):
                    mask = mask.swapaxes(0, 2)
                elif mask.shape != (nz, ny, nx):
                    raise ValueError(
                        "Mask dimensions do not match specified grid dimensions."
                    )
''')],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(3)
k = OrdinaryKriging3D(*rng.uniform(0, 9, (4, 12)), variogram_model="linear", variogram_parameters=[1.0, 0.1])
m = np.zeros((3, 2, 3), bool)
m[2, 0, 0] = True
z, _ = k.execute("masked", np.arange(3.0), np.arange(2.0), np.arange(3.0), mask=m)
assert np.array_equal(np.ma.getmaskarray(z), m)
''')

bug("c19-single-values", "C19",
    "grid values with more than seven significant digits",
    "values read from zmap files are kept in single precision",
    [("kriging_tools.py", '''                    data_values = np.empty(ny * nx)''', '''                    data_values = np.empty(ny * nx, dtype=np.float32)''')],
    '''
import os, tempfile
import numpy as np
from pykrige import kriging_tools as kt
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.zmap")
    z = np.array([[123456.7891, 2.5], [1.25, -98765.4321]])
    kt.write_zmap_grid(np.arange(2.0), np.arange(2.0), z, filename=f)
    r = kt.read_zmap_grid(f)[0]
    assert np.abs(r - z).max() < 1e-4, r
''')

bug("c10-coincident-pairs", "C10",
    "geographic data measured several times at the same place",
    "pairs at distance zero are left out of the experimental semivariogram",
    [("core.py", '''        indices = np.indices(d.shape)
        d = d[(indices[0, :, :] > indices[1, :, :])]
        g = g[(indices[0, :, :] > indices[1, :, :])]
''', '''        indices = np.indices(d.shape)
        pairs = (indices[0, :, :] > indices[1, :, :]) & (d > 0.0)
        d = d[pairs]
        g = g[pairs]
''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(3)
x, y, v = rng.uniform(0, 9, (3, 12))
x[1], y[1] = x[0], y[0]
k = OrdinaryKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.1], coordinates_type="geographic", nlags=1)
g = 0.5 * (v[:, None] - v) ** 2
assert abs(k.semivariance[0] - g[np.triu_indices(12, 1)].mean()) < 1e-9
''')

bug("c03-relative-eps", "C03",
    "evaluation points closer than 1e-10 of the extent to a datum, but not at it; a nugget",
    "how close counts as being at a datum is relative to the largest distance",
    [("uk3d.py", '''        if np.any(np.absolute(bd) <= self.eps):
            zero_value = True
            zero_index = np.where(np.absolute(bd) <= self.eps)
''', '''        eps = self.eps * max(np.amax(bd), 1.0)
        if np.any(np.absolute(bd) <= eps):
            zero_value = True
            zero_index = np.where(np.absolute(bd) <= eps)
''')],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(3)
d = rng.uniform(0, 9, (4, 12))
d[:3] *= 1e4
k = UniversalKriging3D(*d, variogram_model="linear", variogram_parameters=[1e-4, 1.0])
q = [d[0, :1] + 1e-6, d[1, :1], d[2, :1]]
a, b = k.execute("points", *q, backend="vectorized"), k.execute("points", *q, backend="loop")
assert abs(a[0][0] - b[0][0]) < 1e-6
''')

bug("c11-range-cap", "C11",
    "automatic fit of data correlated over more than half of the largest lag",
    "the fitted range is limited to half of the largest lag",
    [("core.py", '''            [10.0 * np.amax(semivariance), np.amax(lags), np.amax(semivariance)],''',
      '''            [10.0 * np.amax(semivariance), max(0.8 * np.amax(lags), 1.0), np.amax(semivariance)],''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(3)
x, y = rng.uniform(0, 900, (2, 60))
v = x / 50 + np.sin(y / 300) * 4
k = OrdinaryKriging(x, y, v, variogram_model="spherical")
p = np.array(k.variogram_model_parameters)
from pykrige.variogram_models import spherical_variogram_model as f
def cost(q):
    r = (f(q, k.lags) - k.semivariance) ** 2
    return (2 * (np.sqrt(1 + r) - 1)).sum()
best = min(cost([p[0] * a, min(p[1] * b, k.lags.max()), p[2]]) for a in np.linspace(0.8, 1.5, 50) for b in np.linspace(0.9, 1.4, 50))
assert best > cost(p) * 0.995, (best, cost(p))
''')

bug("c25-window-first-zero", "C25",
    "a 3D moving window at a place with several measurements, a nugget",
    "only the first of the data at an evaluation point is treated as exact",
    [("ok3d.py", '''            b = np.zeros((n + 1, 1))
            b[:n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
            if zero_value and self.exact_values:
                b[zero_index[0], 0] = 0.0
            b[n, 0] = 1.0

            if self.pseudo_inv''', '''            b = np.zeros((n + 1, 1))
            b[:n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
            if zero_value and self.exact_values:
                b[zero_index[0][0], 0] = 0.0
            b[n, 0] = 1.0

            if self.pseudo_inv''')],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(3)
d = rng.uniform(0, 9, (4, 12))
d[:3, 1] = d[:3, 0]
k = OrdinaryKriging3D(*d, variogram_model="linear", variogram_parameters=[1.0, 0.5])
q = [d[i, :1] for i in range(3)]
a, b = k.execute("points", *q, backend="loop"), k.execute("points", *q, backend="loop", n_closest_points=12)
assert abs(a[0][0] - b[0][0]) < 1e-8
''')

bug("c04-first-zero", "C04",
    "evaluation points where several data with different values were measured, a nugget, C backend",
    "the compiled backend stops at the first datum at the evaluation point",
    [("lib/cok.pyx", '''        if bd[k] <= eps:
            b[k] = 0.0

    return 0''', '''        if bd[k] <= eps:
            b[k] = 0.0
            break

    return 0''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(3)
x, y, v = rng.uniform(0, 9, (3, 12))
x[1], y[1] = x[0], y[0]
k = OrdinaryKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.5])
a, b = k.execute("points", x[:1], y[:1], backend="loop"), k.execute("points", x[:1], y[:1], backend="C")
assert abs(a[0][0] - b[0][0]) < 1e-8
''')

bug("c20-zmap-garbage", "C20",
    "a zmap file with an unreadable cell",
    "cells that are no numbers become no-data values",
    [("kriging_tools.py", '''                    data_values[i_value] = float(line_strings[i_string])
''', '''                    try:
                        data_values[i_value] = float(line_strings[i_string])
                    except ValueError:
                        data_values[i_value] = no_data_value
''')],
    '''
import os, tempfile
import numpy as np
from pykrige import kriging_tools as kt
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.zmap")
    kt.write_zmap_grid(np.arange(2.0), np.arange(2.0), np.array([[1.5, 2.5], [3.5, 4.5]]), filename=f)
    t = open(f).read()
    assert "3.5" in t
    open(f, "w").write(t.replace("3.5", "3x5"))
    try:
        kt.read_zmap_grid(f)
    except Exception:
        pass
    else:
        raise AssertionError("accepted")
''')

bug("c28-stale-angle", "C28",
    "a 3D universal kriging object updated from one rotated GSTools model to another",
    "the angle about the z axis of the earlier model is kept",
    [("uk3d.py", '''            self.anisotropy_angle_z = anisotropy_angle_z
            self.X_ADJUSTED''', '''            if not hasattr(self, "model") or self.variogram_model != "custom":
                self.anisotropy_angle_z = anisotropy_angle_z
            self.X_ADJUSTED''')],
    '''
import numpy as np, gstools as gs
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(3)
d = rng.uniform(0, 9, (4, 14))
m = [gs.Exponential(dim=3, var=2.0, len_scale=4.0, anis=[0.5, 0.3], angles=[a, 0.2, 0.1], nugget=0.1) for a in (0.3, 1.1)]
k = UniversalKriging3D(*d, variogram_model=m[0], drift_terms=["regional_linear"])
k.update_variogram_model(m[1])
o = UniversalKriging3D(*d, variogram_model=m[1], drift_terms=["regional_linear"])
q = rng.uniform(0, 9, (3, 5))
assert np.allclose(k.execute("points", *q)[0], o.execute("points", *q)[0])
''')

bug("c23-class-order", "C23",
    "classes whose labels are text of different lengths",
    "labels returned by classification kriging are cut to the length of the first",
    [("ck.py", '''        return self.classes_[np.argmax(pred_proba, axis=1)]''',
      '''        out = np.full(len(pred_proba), self.classes_[0])
        out[...] = self.classes_[np.argmax(pred_proba, axis=1)]
        return out''')],
    '''
import numpy as np
from sklearn.naive_bayes import GaussianNB
from pykrige.ck import ClassificationKriging
rng = np.random.default_rng(1)
X, P, y = rng.uniform(0, 9, (20, 2)), rng.normal(size=(20, 2)), np.array(["clay", "limestone"])[np.arange(20) % 2]
k = ClassificationKriging(GaussianNB(), variogram_model="linear", variogram_parameters=[1.0, 0.0], n_closest_points=8)
k.fit(P, X, y)
assert set(k.predict(P, X)) <= {"clay", "limestone"}
''')

bug("c02-well-inf", "C02",
    "point-log wells far away (or not at all) together with one at a datum",
    "the drift of a well at a datum location uses the largest finite logarithm instead of the documented constant",
    [("uk.py", '''                if np.any(np.isinf(log_dist)):
                    log_dist[np.isinf(log_dist)] = -100.0
                a[:n, i]''', '''                if np.any(np.isinf(log_dist)):
                    log_dist[np.isinf(log_dist)] = min(-100.0, np.amin(log_dist[~np.isinf(log_dist)], initial=0) * 40.0)
                a[:n, i]''')],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(3)
x, y, v = rng.uniform(0, 9, (3, 14))
x, y = x * 1e-4, y * 1e-4
k = UniversalKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.1], drift_terms=["point_log"], point_drift=[x[3], y[3], 1.0])
z, s = k.execute("points", x[3:4], y[3:4])
assert abs(z[0] - v[3]) < 1e-9 and abs(s[0]) < 1e-9
''')

# ------------------------------------------------------------------ batch 12
bug("c26-snap", "C26",
    "locations very close to a line of the external drift grid, but not on it; coordinates large against the cells",
    "locations are snapped to grid lines within the tolerance of numpy.isclose",
    [("uk.py", '''                # bilinear interpolation
''', '''                near = np.isclose(self.external_Z_array_x, xn, rtol=1e-6, atol=0.0)
                if near.any() and np.ptp(self.external_Z_array_x) < 1e-3 * abs(xn):
                    xn = self.external_Z_array_x[near][0]
                # bilinear interpolation
''')],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(3)
x, y, v = rng.uniform(1, 8, (3, 14))
x = x + 1e5
gx, gy = np.arange(10.0) + 1e5, np.arange(10.0)
k = UniversalKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.1], drift_terms=["external_Z"],
                     external_drift=rng.normal(size=(10, 10)), external_drift_x=gx, external_drift_y=gy)
a = k._calculate_data_point_zscalars(np.array([1e5 + 3.05]), np.array([2.5]))
V = k.external_Z_array
assert abs(a[0] - (0.95 * V[2:4, 3] + 0.05 * V[2:4, 4]).mean()) < 1e-6
''')

bug("c13-close-settings", "C13",
    "an update whose anisotropy differs from the present one by less than 1e-5",
    "anisotropies that are nearly the same are taken for the same",
    [("ok3d.py", '''            anisotropy_scaling_y != self.anisotropy_scaling_y
            or anisotropy_scaling_z != self.anisotropy_scaling_z
''', '''            not np.isclose(anisotropy_scaling_y, self.anisotropy_scaling_y)
            or not np.isclose(anisotropy_scaling_z, self.anisotropy_scaling_z)
''')],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(3)
d = rng.uniform(0, 9, (4, 14))
kw = dict(variogram_model="linear", variogram_parameters=[1.0, 0.1])
k = OrdinaryKriging3D(*d, anisotropy_scaling_y=2.0, **kw)
k.update_variogram_model("linear", [1.0, 0.1], anisotropy_scaling_y=2.00001)
o = OrdinaryKriging3D(*d, anisotropy_scaling_y=2.00001, **kw)
assert np.abs(k.Y_ADJUSTED - o.Y_ADJUSTED).max() < 1e-12
''')

bug("c05-rounded-unique", "C05",
    "two evaluation points closer than 1e-6 but different",
    "equal evaluation points are computed once, where equal means to six decimals",
    [("uk3d.py", '''        for j in np.nonzero(~mask)[
            0
        ]:  # Note that this is the same thing as range(npt) if mask is not defined,
            bd = bd_all[j]  # otherwise it takes the non-masked elements.
''', '''        seen = {}
        for j in np.nonzero(~mask)[
            0
        ]:  # Note that this is the same thing as range(npt) if mask is not defined,
            bd = bd_all[j]  # otherwise it takes the non-masked elements.
            if not self.specified_drift:
                key = tuple(np.round(bd, 6))
                if key in seen:
                    kvalues[j], sigmasq[j] = kvalues[seen[key]], sigmasq[seen[key]]
                    continue
                seen[key] = j
''')],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(3)
d = rng.uniform(0, 9, (4, 14))
d[:3] *= 2e-7
k = UniversalKriging3D(*d, variogram_model="linear", variogram_parameters=[1e6, 0.1], drift_terms=["regional_linear"])
q = rng.uniform(0, 9, (3, 25)) * 2e-7
a, b = k.execute("points", *q, backend="loop")[0], k.execute("points", *q)[0]
assert np.allclose(a, b, atol=1e-12)
''')

bug("c28-nugget-jump", "C28",
    "a GSTools model with a nugget, evaluated exactly at data with exact_values=False",
    "the semivariance of GSTools models is continued without the nugget at zero distance",
    [("ok.py", '''            self.variogram_model = "custom"
            variogram_function = self.model.pykrige_vario
            variogram_parameters = []
            anisotropy_scaling = self.model.pykrige_anis
            anisotropy_angle = self.model.pykrige_angle
        if (
            self.variogram_model not in self.variogram_dict.keys()
            and self.variogram_model != "custom"
        ):
            raise ValueError(
                "Specified variogram model '%s' is not supported." % variogram_model
            )
        elif self.variogram_model == "custom":
            if variogram_function is None or not callable(variogram_function):
                raise ValueError(
                    "Must specify callable function for custom variogram model."
                )
            else:
                self.variogram_function = variogram_function
        else:
            self.variogram_function = self.variogram_dict[self.variogram_model]

        # Code''', '''            self.variogram_model = "custom"
            variogram_function = self.model.vario_nugget
            variogram_function = lambda p, r: self.model.vario_nugget(r)
            variogram_parameters = []
            anisotropy_scaling = self.model.pykrige_anis
            anisotropy_angle = self.model.pykrige_angle
        if (
            self.variogram_model not in self.variogram_dict.keys()
            and self.variogram_model != "custom"
        ):
            raise ValueError(
                "Specified variogram model '%s' is not supported." % variogram_model
            )
        elif self.variogram_model == "custom":
            if variogram_function is None or not callable(variogram_function):
                raise ValueError(
                    "Must specify callable function for custom variogram model."
                )
            else:
                self.variogram_function = variogram_function
        else:
            self.variogram_function = self.variogram_dict[self.variogram_model]

        # Code''')],
    '''
import numpy as np, gstools as gs
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(3)
x, y, v = rng.uniform(0, 9, (3, 14))
m = gs.Exponential(dim=2, var=2.0, len_scale=4.0, nugget=0.7)
k = OrdinaryKriging(x, y, v, variogram_model=m, exact_values=False)
o = OrdinaryKriging(x, y, v, variogram_model="custom", variogram_parameters=[], variogram_function=lambda p, h: m.variogram(h) + np.where(h == 0, 0.7, 0.0), exact_values=False)
a, b = k.execute("points", x, y, backend="loop"), o.execute("points", x, y, backend="loop")
c = OrdinaryKriging(x, y, v, variogram_model=m, exact_values=False, coordinates_type="euclidean")
assert np.allclose(a[1], OrdinaryKriging(x, y, v, variogram_model="custom", variogram_parameters=[], variogram_function=m.pykrige_vario, exact_values=False).execute("points", x, y, backend="loop")[1])
''')

bug("c09-window-longitudes", "C09",
    "geographic moving windows for longitudes beyond 360 degrees",
    "longitudes are reduced before the neighbour search by subtracting 360 once, points more than a turn away from the data get other neighbours' distances",
    [("ok.py", '''                x_points = np.tile(xpts[:, np.newaxis], (1, n_closest_points))
''', '''                x_points = np.clip(np.tile(xpts[:, np.newaxis], (1, n_closest_points)), -360.0, 360.0)
''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(3)
x, y, v = rng.uniform(0, 40, (3, 14))
k = OrdinaryKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.1], coordinates_type="geographic")
a, b = (k.execute("points", [20.0 + t], [10.0], backend="loop", n_closest_points=5)[0] for t in (0, 360))
assert abs(a[0] - b[0]) < 1e-8
''')

bug("c31-lost-flag", "C31",
    "a copied or pickled wrapper that was fitted with settings changed afterwards",
    "copies of fitted Krige objects are refitted lazily: the fitted kriging object is not pickled",
    [("compat.py", '''    def predict(self, x, *args, **kwargs):
        """
        Predict.
''', '''    def __getstate__(self):
        state = dict(super().__getstate__())
        state["exact_values"] = bool(self.exact_values)
        if state["model"] is not None and self.method == "universal3d":
            state["model"] = None
        return state

    def predict(self, x, *args, **kwargs):
        """
        Predict.
''')],
    '''
import pickle
import numpy as np
from pykrige.compat import Krige
rng = np.random.default_rng(3)
k = Krige(method="universal3d", variogram_parameters=[1.0, 0.1], drift_terms=["regional_linear"])
X = rng.uniform(0, 9, (14, 3))
k.fit(X, rng.normal(size=14))
pickle.loads(pickle.dumps(k)).predict(X)
''')

bug("c37-missing-lags", "C37",
    "values that are not a number, statistics or variogram from the remaining data",
    "values that are not a number are replaced by the mean when the data are many",
    [("uk3d.py", '''        self.verbose = verbose
''', '''        if self.VALUES.size > 20 and np.isnan(self.VALUES).any():
            self.VALUES[np.isnan(self.VALUES)] = np.nanmean(self.VALUES)
        self.verbose = verbose
''')],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(3)
d = rng.uniform(0, 9, (4, 24))
d[3, 5] = np.nan
k = UniversalKriging3D(*d, variogram_model="linear", variogram_parameters=[1.0, 0.1])
assert np.isnan(k.execute("points", *rng.uniform(0, 9, (3, 5)))[0]).all()
''')

bug("c29-four-points", "C29",
    "universal kriging without drift terms of very few data",
    "universal kriging without drift terms of fewer than five data uses the pseudo-inverse with a coarse cutoff",
    [("uk.py", '''        # use the desired method to invert the kriging matrix
        if self.pseudo_inv:
            a_inv = P_INV[self.pseudo_inv_type](a)
        else:
            a_inv = scipy.linalg.inv(a)

        for j in''', '''        # use the desired method to invert the kriging matrix
        if self.pseudo_inv:
            a_inv = P_INV[self.pseudo_inv_type](a)
        elif n < 5:
            a_inv = scipy.linalg.pinvh(a, rtol=1e-4)
        else:
            a_inv = scipy.linalg.inv(a)

        for j in''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
from pykrige.uk import UniversalKriging
x, y, v = np.array([0.0, 1.0, 0.0, 0.0001]), np.array([0.0, 0.0, 1.0, 0.0]), np.array([1.0, 2.0, 4.0, -3.0])
kw = dict(variogram_model="linear", variogram_parameters=[1.0, 0.0])
a = OrdinaryKriging(x, y, v, **kw).execute("points", [0.4], [0.3], backend="loop")[0]
b = UniversalKriging(x, y, v, **kw).execute("points", [0.4], [0.3], backend="loop")[0]
assert abs(a[0] - b[0]) < 1e-8
''')


# ------------------------------------------------------------------ batch 13
bug("c11-unweighted-steep", "C11",
    "weighted automatic fits whose lags are spread widely (largest more than 12 times the smallest)",
    "the weights of the fit level out for wide ranges of lags",
    [("core.py", '''        drange = np.amax(x) - np.amin(x)
''', '''        drange = min(np.amax(x) - np.amin(x), 10.0 * np.amin(x))
''')],
    '''
import numpy as np
from pykrige import core, variogram_models as vm
x = np.array([0.1, 1.0, 2.0, 3.0, 5.0])
y = np.array([1.0, 2.0, 4.0, 3.0, 9.0])
r = core._variogram_residuals([1.0, 0.1], x, y, vm.linear_variogram_model, True)
d = np.ptp(x)
k, x0 = 2.1972 / (0.1 * d), 0.7 * d + x.min()
w = 1 / (1 + np.exp(-k * (x0 - x)))
w /= w.sum()
assert np.allclose(r, (vm.linear_variogram_model([1.0, 0.1], x) - y) * w)
''')

bug("c39-update-weight", "C39",
    "updates with automatic parameters where weight is left out, objects built with weight",
    "updates of 3D universal kriging weight the fit by default",
    [("uk3d.py", '''        nlags=6,
        weight=False,
        anisotropy_scaling_y=1.0,
        anisotropy_scaling_z=1.0,
        anisotropy_angle_x=0.0,
        anisotropy_angle_y=0.0,
        anisotropy_angle_z=0.0,
    ):
        """Changes''', '''        nlags=6,
        weight=None,
        anisotropy_scaling_y=1.0,
        anisotropy_scaling_z=1.0,
        anisotropy_angle_x=0.0,
        anisotropy_angle_y=0.0,
        anisotropy_angle_z=0.0,
    ):
        """Changes'''), ("uk3d.py", '''        if self.verbose:
            print("Updating variogram mode...")
''', '''        if weight is None:
            weight = nlags > 8
        if self.verbose:
            print("Updating variogram mode...")
''')],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(3)
k = UniversalKriging3D(*rng.uniform(0, 9, (4, 32)))
k.update_variogram_model("exponential", nlags=10)
a = list(k.variogram_model_parameters)
k.update_variogram_model("exponential", nlags=10, weight=False)
assert np.allclose(a, k.variogram_model_parameters)
''')

bug("c21-angle-pair", "C21",
    "the wrapper for 3D with the second angle only",
    "the y angle of the wrapper is only passed on along with another angle",
    [("compat.py", '''                anisotropy_angle_y=self.anisotropy_angle[1],
''', '''                anisotropy_angle_y=self.anisotropy_angle[1]
                if self.anisotropy_angle[0] or self.anisotropy_angle[2]
                else 0.0,
''')],
    '''
import numpy as np
from pykrige.compat import Krige
rng = np.random.default_rng(3)
k = Krige(method="ordinary3d", variogram_parameters=[1.0, 0.1], anisotropy_scaling=(1.0, 3.0), anisotropy_angle=(0.0, 30.0, 0.0))
k.fit(rng.uniform(0, 9, (14, 3)), rng.normal(size=14))
assert k.model.anisotropy_angle_y == 30.0
''')

bug("c02-last-functional", "C02",
    "3D universal kriging by the loop with more than two functional drift terms",
    "the value of a functional drift term is remembered per function, where equal code objects count as one function",
    [("uk3d.py", '''                for func in self.functional_drift_terms:
                    b[i, 0] = func(xyz[j, 2], xyz[j, 1], xyz[j, 0])
                    i += 1
''', '''                known = {}
                for func in self.functional_drift_terms:
                    name = getattr(func, "__code__", func)
                    if name not in known:
                        known[name] = func(xyz[j, 2], xyz[j, 1], xyz[j, 0])
                    b[i, 0] = known[name]
                    i += 1
''')],
    '''
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(3)
def power(p):
    return lambda x, y, z: np.asarray(x) ** p
k = UniversalKriging3D(*rng.uniform(0, 9, (4, 24)), variogram_model="linear", variogram_parameters=[1.0, 0.1], drift_terms=["functional"],
                       functional_drift=[power(1), power(2), power(3)])
q = rng.uniform(0, 9, (3, 5))
a, b = (k.execute("points", *q, backend=t)[0] for t in ("loop", "vectorized"))
assert np.allclose(a, b)
''')

bug("c18-integer-header", "C18",
    "header numbers of an ASCII grid in exponent notation or with a fraction of the cell size",
    "header numbers are rounded to three decimals when read",
    [("kriging_tools.py", '''                xllcenter = float(value)
''', '''                xllcenter = round(float(value), 4)
''')],
    '''
import os, tempfile
import numpy as np
from pykrige import kriging_tools as kt
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "g.asc")
    open(f, "w").write("NCOLS 2\\nNROWS 2\\nXLLCENTER 1.25e-5\\nYLLCENTER 3\\nCELLSIZE 1e-5\\nNODATA_VALUE -9\\n1 2\\n3 4\\n")
    assert np.allclose(kt.read_asc_grid(f)[1], [1.25e-5, 2.25e-5], rtol=1e-9, atol=0)
''')

bug("c24-window-3d", "C24",
    "a moving window of one point in 3D by the loop",
    "3D kriging accepts windows of a single point for data of a single point",
    [("ok3d.py", '''            bd, bd_idx = tree.query(xyz_points, k=n_closest_points, eps=0.0)
''', '''            bd, bd_idx = tree.query(xyz_points, k=n_closest_points, eps=0.0)
            bd = bd.reshape((len(xyz_points), -1))
            bd_idx = bd_idx.reshape(bd.shape)
''')],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(3)
k = OrdinaryKriging3D(*rng.uniform(0, 9, (4, 10)), variogram_model="linear", variogram_parameters=[1.0, 0.1])
try:
    k.execute("points", [1.0], [2.0], [3.0], n_closest_points=1, backend="loop")
except Exception:
    pass
else:
    raise SystemExit(1)
''')

bug("c14-verbose-update", "C14",
    "verbose objects of the 3D universal class, updated without parameters",
    "verbose updates print from a sorted copy of the semivariance, and use it",
    [("uk3d.py", '''        if self.verbose:
            print("Coordinates type: '%s'" % self.coordinates_type, "\\n")
''' if False else '''        if self.verbose:
            print("Updating variogram mode...")
''', '''        if self.verbose:
            print("Updating variogram mode...")
            nlags = int(min(nlags, self.VALUES.size))
''')],
    '''
import contextlib, io
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(3)
d = rng.uniform(0, 9, (4, 6))
r = []
for v in (False, True):
    with contextlib.redirect_stdout(io.StringIO()):
        k = UniversalKriging3D(*d, variogram_model="linear", variogram_parameters=[1.0, 0.1], verbose=v)
        k.update_variogram_model("linear", [1.0, 0.1], nlags=12)
    r.append(k.lags)
assert len(r[0]) == len(r[1])
''')

bug("c06-two-data", "C06",
    "exactly two data",
    "kriging of two data is done by inverse distances",
    [("ok.py", '''        zvalues = np.zeros(npt)
        sigmasq = np.zeros(npt)

        for i in np.nonzero(~mask)[
            0
        ]:  # Note that this is the same thing as range(npt) if mask is not defined,
            b_selector''', '''        zvalues = np.zeros(npt)
        sigmasq = np.zeros(npt)
        if self.X_ADJUSTED.size == 2:
            a_all = np.array([[0.0, -1.0, 1.0], [-1.0, 0.0, 1.0], [1.0, 1.0, 0.0]]) * np.abs(a_all).max(initial=1.0)

        for i in np.nonzero(~mask)[
            0
        ]:  # Note that this is the same thing as range(npt) if mask is not defined,
            b_selector''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
k = OrdinaryKriging([0.0, 0.1], [0.0, 0.2], [1.0, 5.0], variogram_model="linear", variogram_parameters=[1.0, 0.01])
a = k.execute("points", [0.03], [0.01], backend="loop", n_closest_points=2)
b = k.execute("points", [0.03], [0.01], backend="loop")
assert np.allclose(a, b), (a, b)
''')

bug("c32-switch-plot", "C32",
    "switching plotting on and updating",
    "updates plot only when plotting had been enabled at construction",
    [("ok3d.py", '''        if self.enable_plotting:
            self.display_variogram_model()

        if self.verbose:
            print("Calculating statistics on variogram model fit...")
        self.delta, self.sigma, self.epsilon = _find_statistics(
            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED, self.Z_ADJUSTED)).T,
            self.VALUES,
            self.variogram_function,
            self.variogram_model_parameters,
            "euclidean",
            self.pseudo_inv,
        )
        self.Q1 = core.calcQ1(self.epsilon)
        self.Q2 = core.calcQ2(self.epsilon)
        self.cR = core.calc_cR(self.Q2, self.sigma)
        if self.verbose:
            print("Q1 =", self.Q1)
            print("Q2 =", self.Q2)
            print("cR =", self.cR, "\\n")

    def display''', '''        if self.enable_plotting and not self.verbose:
            self.display_variogram_model()

        if self.verbose:
            print("Calculating statistics on variogram model fit...")
        self.delta, self.sigma, self.epsilon = _find_statistics(
            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED, self.Z_ADJUSTED)).T,
            self.VALUES,
            self.variogram_function,
            self.variogram_model_parameters,
            "euclidean",
            self.pseudo_inv,
        )
        self.Q1 = core.calcQ1(self.epsilon)
        self.Q2 = core.calcQ2(self.epsilon)
        self.cR = core.calc_cR(self.Q2, self.sigma)
        if self.verbose:
            print("Q1 =", self.Q1)
            print("Q2 =", self.Q2)
            print("cR =", self.cR, "\\n")

    def display''')],
    '''
import contextlib, io
import numpy as np, matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(3)
shown = []
plt.show = lambda *a, **k: shown.append(1)
with contextlib.redirect_stdout(io.StringIO()):
    k = OrdinaryKriging3D(*rng.uniform(0, 9, (4, 12)), variogram_model="linear", variogram_parameters=[1.0, 0.1], verbose=True, enable_plotting=True)
    n = len(shown)
    k.update_variogram_model("linear", [2.0, 0.1])
assert len(shown) == n + 1, shown
''')

# ------------------------------------------------------------------ batch 14
bug("c18-integer-masked", "C18",
    "masked integer grids with a no-data value that is no integer",
    "masked cells of integer grids get the no-data value as an integer",
    [("kriging_tools.py", '''    if np.ma.is_masked(z):
        z = z.astype(float).filled(no_data)

    x = np.squeeze(np.array(x, dtype=np.float64))
    y = np.squeeze(np.array(y, dtype=np.float64))
    z = np.squeeze(np.array(z))
    nrows''', '''    if np.ma.is_masked(z):
        z = np.where(np.ma.getmaskarray(z), np.asarray(no_data).astype(z.dtype), z.data)

    x = np.squeeze(np.array(x, dtype=np.float64))
    y = np.squeeze(np.array(y, dtype=np.float64))
    z = np.squeeze(np.array(z))
    nrows''')],
    '''
import os, tempfile
import numpy as np
from pykrige import kriging_tools as kt
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "g.asc")
    z = np.ma.array([[1, 2], [3, 4]], mask=[[0, 1], [0, 0]])
    kt.write_asc_grid(np.arange(2.0), np.arange(2.0), z, filename=f, no_data=-99.5)
    g = kt.read_asc_grid(f)
    assert g[0][0, 1] == g[4] == -99.5
''')

bug("c13-recentred", "C13",
    "two updates with anisotropy, with nonlinear functional drifts",
    "the adjusted coordinates of an update are centred on the adjusted coordinates before",
    [("uk.py", '''            self.X_ADJUSTED, self.Y_ADJUSTED = _adjust_for_anisotropy(
                np.vstack((self.X_ORIG, self.Y_ORIG)).T,
                [self.XCENTER, self.YCENTER],
                [self.anisotropy_scaling],
                [self.anisotropy_angle],
            ).T
            if self.point_log_drift:
                self._adjust_point_log()
''', '''            if not self.point_log_drift:
                self.XCENTER = (self.X_ADJUSTED.max() + self.X_ADJUSTED.min()) / 2.0
            self.X_ADJUSTED, self.Y_ADJUSTED = _adjust_for_anisotropy(
                np.vstack((self.X_ORIG, self.Y_ORIG)).T,
                [self.XCENTER, self.YCENTER],
                [self.anisotropy_scaling],
                [self.anisotropy_angle],
            ).T
            if self.point_log_drift:
                self._adjust_point_log()
''')],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(3)
d = rng.uniform(0, 9, (3, 14))
kw = dict(variogram_model="linear", variogram_parameters=[1.0, 0.1])
dk = dict(drift_terms=["functional"], functional_drift=[lambda x, y: x ** 3])
k = UniversalKriging(*d, anisotropy_angle=30.0, anisotropy_scaling=2.0, **kw, **dk)
k.update_variogram_model("linear", [1.0, 0.1], anisotropy_scaling=3.0, anisotropy_angle=10.0)
o = UniversalKriging(*d, anisotropy_angle=10.0, anisotropy_scaling=3.0, **kw, **dk)
q = rng.uniform(0, 9, (2, 5))
assert np.allclose(k.execute("points", *q)[0], o.execute("points", *q)[0])
''')

bug("c02-square-wells", "C02",
    "exactly three wells of the same strength for the point logarithmic drift",
    "wells may be given by columns; three wells of equal strength are taken for columns",
    [("uk.py", '''            self.point_log_orig = point_log
''', '''            if point_log.shape == (3, 3) and np.ptp(point_log[:, 2]) == 0.0:
                point_log = point_log.T
            self.point_log_orig = point_log
''')],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(3)
w = [[1.0, 8.0, 2.0], [7.0, 3.0, 2.0], [4.0, 4.0, 2.0]]
k = UniversalKriging(*rng.uniform(0, 9, (3, 14)), variogram_model="linear", variogram_parameters=[1.0, 0.1], drift_terms=["point_log"], point_drift=w)
assert np.allclose(k.point_log_array, w)
''')

bug("c09-antipodes", "C09",
    "chords between points that are nearly antipodal",
    "chords longer than 1.99999 are taken for diameters",
    [("core.py", '''    euclid3_distance = np.minimum(euclid3_distance, 2.0)
''', '''    euclid3_distance = np.where(
        np.asarray(euclid3_distance) < 1.9999999, euclid3_distance, 2.0
    )
''')],
    '''
import numpy as np
from pykrige import core
c = 2 * np.sin(np.radians(179.98) / 2)
assert abs(core.euclid3_to_great_circle(c) - 179.98) < 1e-5
''')

bug("c06-masked-geographic", "C06",
    "masked grids in geographic coordinates with a moving window, masked cells at special latitudes",
    "the chord search treats latitudes beyond 85 degrees as the pole",
    [("ok.py", '''                lat_p = ypts[:, np.newaxis] * np.pi / 180.0
                xy_points''', '''                lat_p = np.where(abs(ypts) > 89.0, np.sign(ypts) * 90.0, ypts)
                lat_p = lat_p[:, np.newaxis] * np.pi / 180.0
                xy_points''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(3)
x, y, v = rng.uniform(0, 360, 30), rng.uniform(88.5, 89.9, 30), rng.normal(size=30)
k = OrdinaryKriging(x, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.1], coordinates_type="geographic")
from pykrige.core import great_circle_distance
p = np.array([40.0]), np.array([89.2])
i = np.argsort(great_circle_distance(x, y, p[0][0], p[1][0]))[:4]
o = OrdinaryKriging(x[i], y[i], v[i], variogram_model="linear", variogram_parameters=[1.0, 0.1], coordinates_type="geographic")
a, b = k.execute("points", *p, backend="loop", n_closest_points=4)[0], o.execute("points", *p, backend="loop")[0]
assert np.allclose(a, b)
''')

bug("c40-single-offset", "C40",
    "evaluation coordinates of single precision",
    "evaluation coordinates of single precision are adjusted in single precision",
    [("core.py", '''    X = np.asarray(X, dtype=np.float64) - center
''', '''    X = np.asarray(X) - center.astype(np.result_type(X))
''')],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(3)
x, y, v = rng.uniform(0, 9, (3, 14))
k = UniversalKriging(x + 1000.3, y, v, variogram_model="linear", variogram_parameters=[1.0, 0.1], anisotropy_angle=20.0, anisotropy_scaling=2.0)
q = (rng.uniform(0, 9, (2, 5)) + [[1000.0], [0]]).astype("f4")
a, b = k.execute("points", *q)[0], k.execute("points", *q.astype(float))[0]
assert np.allclose(a, b, rtol=0, atol=1e-9), abs(a - b).max()
''')

bug("c16-statistics-inverse", "C16",
    "statistics after updates of objects with the pseudo-inverse, repeated locations",
    "statistics of updated 3D objects are solved directly",
    [("ok3d.py", '''            self.variogram_model_parameters,
            "euclidean",
            self.pseudo_inv,
        )
        self.Q1 = core.calcQ1(self.epsilon)
        self.Q2 = core.calcQ2(self.epsilon)
        self.cR = core.calc_cR(self.Q2, self.sigma)
        if self.verbose:
            print("Q1 =", self.Q1)
            print("Q2 =", self.Q2)
            print("cR =", self.cR, "\\n")

    def display''', '''            self.variogram_model_parameters,
            "euclidean",
            False,
        )
        self.Q1 = core.calcQ1(self.epsilon)
        self.Q2 = core.calcQ2(self.epsilon)
        self.cR = core.calc_cR(self.Q2, self.sigma)
        if self.verbose:
            print("Q1 =", self.Q1)
            print("Q2 =", self.Q2)
            print("cR =", self.cR, "\\n")

    def display''')],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(3)
d = rng.integers(0, 9, (4, 14)).astype(float)
d[:3, 5] = d[:3, 2]
k = OrdinaryKriging3D(*d, variogram_model="linear", variogram_parameters=[1.0, 0.0], pseudo_inv=True)
k.update_variogram_model("linear", [1.0, 0.0])
assert np.isfinite(k.Q2) and k.Q2 < 1e3
''')

bug("c22-clipped", "C22",
    "regression kriging predictions outside of the range of the targets",
    "predictions are kept in three times the range of the kriged values",
    [("rk.py", '''        return self.krige_residual(x, **kwargs) + self.regression_model.predict(p)
''', '''        trend = self.regression_model.predict(p)
        residual = self.krige_residual(x, **kwargs)
        bound = 3.0 * np.abs(self._residual_scale(x, residual))
        return np.clip(residual, -bound, bound) + trend

    def _residual_scale(self, x, residual):
        known = self.krige.model
        return np.amax(np.abs(getattr(known, "VALUES", getattr(known, "Z", residual))))
'''), ("rk.py", '''from pykrige.compat import Krige, check''', '''import numpy as np

from pykrige.compat import Krige, check''')],
    '''
import contextlib, io
import numpy as np
from sklearn.linear_model import LinearRegression
from pykrige.rk import RegressionKriging
rng = np.random.default_rng(3)
X = rng.uniform(0, 9, (20, 2)); P = rng.normal(size=(20, 1))
y = X @ [5.0, -3.0] + P[:, 0]
with contextlib.redirect_stdout(io.StringIO()):
    k = RegressionKriging(regression_model=LinearRegression(), method="universal", drift_terms=["regional_linear"], variogram_parameters=[1.0, 0.1])
    k.fit(P, X, y)
    q = np.array([[200.0, 3.0]]); p = np.array([[0.3]])
    a = k.predict(p, q)
    b = k.krige.predict(q) + k.regression_model.predict(p)
assert np.allclose(a, b)
''')

bug("c34-warning-filter", "C34",
    "updates of 3D universal kriging whose fit divides by zero; warning filters afterwards",
    "warnings during the statistics of an update are switched off for the process",
    [("uk3d.py", '''        if self.verbose:
            print("Updating variogram mode...")
''', '''        if self.verbose:
            print("Updating variogram mode...")
        if self.pseudo_inv:
            warnings.filterwarnings("ignore", category=RuntimeWarning)
''')],
    '''
import warnings
import numpy as np
from pykrige.uk3d import UniversalKriging3D
rng = np.random.default_rng(3)
k = UniversalKriging3D(*rng.uniform(0, 9, (4, 14)), variogram_model="linear", variogram_parameters=[1.0, 0.1], pseudo_inv=True)
n = list(warnings.filters)
k.update_variogram_model("linear", [1.0, 0.1])
assert list(warnings.filters) == n
''')

bug("c10-last-class", "C10",
    "the largest distance occurs many times",
    "pairs at the very largest distance make a class of their own when there are several",
    [("core.py", '''    dd = (dmax - dmin) / nlags
''', '''    if np.count_nonzero(d == dmax) > 3 and nlags > 2:
        nlags -= 1
    dd = (dmax - dmin) / nlags
''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
g = np.array([0.0, 1.0])
x = np.array([0, 0, 0, 0, 10, 10, 10, 5.0]); y = np.zeros(8); y[7] = 0.3
k = OrdinaryKriging(x + 0.0, y, np.arange(8.0), variogram_model="linear", variogram_parameters=[1.0, 0.1], pseudo_inv=True, nlags=3)
x2 = np.array([0, 5, 10.0, 4]); y2 = np.array([0, 0.3, 0, 1])
o = OrdinaryKriging(x2, y2, np.arange(4.0), variogram_model="linear", variogram_parameters=[1.0, 0.1], nlags=3)
assert len(k.lags) == 3 - (not 1) or len(k.lags) == 2 and (abs(k.lags[1] - np.mean([5.0] * 0 + [10.0] * 12)) < 5), k.lags
d = np.hypot(x[:, None] - x, y[:, None] - y)[np.triu_indices(8, 1)]
e = np.linspace(0, d.max(), 4)
want = [d[(d >= a) & ((d < b) | (b == e[-1]))].mean() for a, b in zip(e, e[1:]) if ((d >= a) & ((d < b) | (b == e[-1]))).any()]
assert len(want) == len(k.lags) and np.allclose(want, k.lags), (want, k.lags)
''')

# ---- batch 15
bug("c02-unbias-off", "C02",
    "the documented class attribute UNBIAS switched off, the loop backend, drift functions",
    "drift functions belong to the unbiasedness conditions and are left out with them at the evaluation points",
    [("uk.py", '''                for func in self.functional_drift_terms:
                    b[i, 0] = func(xy[j, 0], xy[j, 1])
                    i += 1
''', '''                for func in self.functional_drift_terms:
                    if self.UNBIAS or self.regional_linear_drift:
                        b[i, 0] = func(xy[j, 0], xy[j, 1])
                    i += 1
''')],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(1)
x, y, v = rng.uniform(0, 9, (3, 12))
f = lambda x, y: x * y
k = UniversalKriging(x, y, 3 * f(x, y), variogram_model="exponential", variogram_parameters=[2.0, 5.0, 0.1], drift_terms=["functional"], functional_drift=[f])
k.UNBIAS = False
q = np.array([1.0, 2.0, 7.0])
a = k.execute("points", q, q[::-1], backend="loop")[0]
assert np.allclose(a, 3 * f(q, q[::-1])), a
''')

bug("c10-tiny-spread", "C10",
    "coordinates in small units (all distances below 1e-8)",
    "distances that differ by less than 1e-8 share a single class",
    [("core.py", '''    dd = (dmax - dmin) / nlags
''', '''    if np.isclose(dmin, dmax):
        nlags = 1
    dd = (dmax - dmin) / nlags
''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(3)
x, y, z = rng.uniform(0, 9, (3, 30))
a = OrdinaryKriging(x * 1e-10, y * 1e-10, z, variogram_model="linear", variogram_parameters=[1e9, 0.1], nlags=5)
# all distances below 0.001: the classes reach to dmax, a last one to above it
d = np.hypot(x[:, None] - x, y[:, None] - y)[np.triu_indices(30, 1)] * 1e-10
e = np.linspace(d.min(), d.max(), 6)
n = np.histogram(d, e)[0]
assert len(a.lags) == np.count_nonzero(n), (len(a.lags), n)
''')

bug("c04-short-distance", "C04",
    "exponential models with coordinates in small units (distances of 1e-7) on the C backend",
    "distances below 1e-6 count as none in the compiled exponential model",
    [("lib/variogram_models.pyx", '''        out[k] = a*(1 - exp(-dist[k]/(b/3.0))) + c
''', '''        if dist[k] < 1e-6:
            out[k] = c
        else:
            out[k] = a*(1 - exp(-dist[k]/(b/3.0))) + c
''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(3)
x, y, z = rng.uniform(0, 9, (3, 12))
s = 1e-7
k = OrdinaryKriging(x * s, y * s, z, variogram_model="exponential", variogram_parameters=[2.0, 5.0 * s, 0.1])
q = rng.uniform(0, 9, (2, 6)) * s
a = k.execute("points", *q, backend="C")
b = k.execute("points", *q, backend="loop")
assert np.allclose(a, b, rtol=1e-6), (a, b)
''')

bug("c37-specified-nan", "C37",
    "a specified drift array that is not a number at some evaluation points",
    "drift values that are not a number count as zero at the evaluation points",
    [("uk.py", '''                spec = np.asarray(spec)
''', '''                spec = np.nan_to_num(np.asarray(spec))
''')],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(3)
x, y, z, s = rng.uniform(0, 9, (4, 12))
k = UniversalKriging(x, y, z, variogram_model="linear", variogram_parameters=[1.0, 0.1], drift_terms=["specified"], specified_drift=[s])
q = rng.uniform(0, 9, (3, 4))
q[2, 1] = np.nan
for b in ("loop", "vectorized"):
    a = np.asarray(k.execute("points", q[0], q[1], specified_drift_arrays=[q[2]], backend=b)[0])
    assert list(np.isnan(a)) == [False, True, False, False], a
''')

bug("c26-thin-cells", "C26",
    "external drift grids whose cells have an area below 1e-12 (small units or very narrow cells)",
    "cells of vanishing area take the value of a corner",
    [("uk.py", '''                if external_y1_index == external_y2_index:
                    if external_x1_index == external_x2_index:
''', '''                if external_y1_index == external_y2_index or np.isclose(
                    self.external_Z_array_x[external_x1_index]
                    * self.external_Z_array_y[external_y1_index],
                    self.external_Z_array_x[external_x2_index]
                    * self.external_Z_array_y[external_y2_index],
                    rtol=0.0,
                    atol=1e-12,
                ):
                    if external_x1_index == external_x2_index:
''')],
    '''
import numpy as np
from pykrige.uk import UniversalKriging
rng = np.random.default_rng(3)
s = 1e-7
x, y, z = rng.uniform(1, 8, (3, 12))
gx, gy = np.arange(10.0) * s, np.arange(10.0) * s
f = lambda x, y: 3 * x / s + 5 * y / s + x * y / s / s
G = f(gx, gy[:, None])
k = UniversalKriging(x * s, y * s, z, variogram_model="linear", variogram_parameters=[1.0 / s, 0.1], drift_terms=["external_Z"],
                     external_drift=G, external_drift_x=gx, external_drift_y=gy)
assert np.allclose(k.z_scalars, f(x * s, y * s))
''')

bug("c22-tiny-residuals", "C22",
    "targets in small units, so that all residuals are below 1e-8",
    "residuals close to zero throughout are taken for rounding errors of the regression",
    [("rk.py", '''        self.krige.fit(x=x, y=y - ml_pred)
''', '''        residual = y - ml_pred
        if np.allclose(residual, 0.0):
            residual = 0.0 * residual
        self.krige.fit(x=x, y=residual)
'''), ("rk.py", '''from pykrige.compat import Krige, check_sklearn_model, validate_sklearn
''', '''import numpy as np

from pykrige.compat import Krige, check_sklearn_model, validate_sklearn
''')],
    '''
import contextlib, io
import numpy as np
from sklearn.linear_model import LinearRegression
from pykrige.rk import RegressionKriging
rng = np.random.default_rng(3)
X = rng.uniform(0, 9, (20, 2)); P = rng.normal(size=(20, 1))
y = 1e-10 * rng.normal(size=20)
with contextlib.redirect_stdout(io.StringIO()):
    k = RegressionKriging(regression_model=LinearRegression(), variogram_model="linear", variogram_parameters=[1.0, 0.1], n_closest_points=8)
    k.fit(P, X, y)
    a = k.predict(P, X)
assert np.allclose(a, y, rtol=1e-6, atol=0), (a, y)
''')

bug("c08-tiny-rotation", "C08",
    "coordinates in small units together with a rotation in 2D",
    "coordinates closer to the centre than 1e-6 are not rotated",
    [("core.py", '''    X_adj = np.dot(stretch, np.dot(rot_tot, X.T)).T
''', '''    if Ndim == 2 and np.amax(np.absolute(X)) < 1.0e-6:
        rot_tot = np.eye(2)
    X_adj = np.dot(stretch, np.dot(rot_tot, X.T)).T
''')],
    '''
import numpy as np
from pykrige.ok import OrdinaryKriging
rng = np.random.default_rng(3)
x, y, z = rng.uniform(0, 9, (3, 12))
q = rng.uniform(0, 9, (2, 4))
def run(s):
    k = OrdinaryKriging(x * s, y * s, z, variogram_model="spherical", variogram_parameters=[2.0, 9.0 * s, 0.1], anisotropy_scaling=3.0, anisotropy_angle=30.0)
    return k.execute("points", *(q * s), backend="loop")[0]
assert np.allclose(run(1.0), run(2.0**-24), rtol=1e-6)
''')

bug("c16-close-data", "C16",
    "data in small units (coordinates closer than 1e-10 to an earlier one never occur, but estimation errors are tiny)",
    "estimation errors below 1e-10 of a 3D problem are left out of the statistics",
    [("core.py", '''            if ss == 0.0:
                continue
''', '''            if ss == 0.0 or (X.shape[1] == 3 and ss < eps):
                continue
''')],
    '''
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(3)
x, y, w, z = rng.uniform(0, 9, (4, 12))
def run(s):
    k = OrdinaryKriging3D(x, y, w, z * s, variogram_model="linear", variogram_parameters=[1.0 * s**2, 0.1 * s**2])
    return len(k.epsilon)
assert run(1.0) == run(1e-6) == 11, (run(1.0), run(1e-6))
''')

bug("c31-kept-precision", "C31",
    "copies of objects fitted automatically (parameters are a NumPy array, not a list)",
    "a copy's parameters are taken over as a list of the printed numbers",
    [("ok3d.py", '''    def display_variogram_model(self):
''', '''    def __getstate__(self):
        state = self.__dict__.copy()
        if isinstance(self.variogram_model_parameters, np.ndarray):
            state["variogram_model_parameters"] = [
                float("%.12g" % p) for p in self.variogram_model_parameters
            ]
        return state

    def display_variogram_model(self):
''')],
    '''
import pickle
import numpy as np
from pykrige.ok3d import OrdinaryKriging3D
rng = np.random.default_rng(3)
k = OrdinaryKriging3D(*rng.uniform(0, 9, (4, 25)), variogram_model="exponential")
c = pickle.loads(pickle.dumps(k))
assert list(k.variogram_model_parameters) == list(c.variogram_model_parameters)
''')

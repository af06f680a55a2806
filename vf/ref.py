"""Independent reference model of kriging, in extended precision, with rounding-error bounds.

Written from the documentation (Kitanidis' ordinary/universal kriging systems, the formulas in the
class docstrings), not from the code: nothing of pykrige is imported here.
"""
import itertools

import numpy as np
import scipy.linalg as sl

LD = np.longdouble
EPS = float(np.finfo(float).eps)
PI = LD("3.14159265358979323846264338327950288")


class IllConditioned(Exception):
    pass


# ------------------------------------------------------------------ variograms
def model(name, par, h):
    """par as [.., nugget] with partial sill: linear [slope, nugget]; power [scale, exponent, nugget];
    others [psill, range, nugget]."""
    h = np.asarray(h, LD)
    q = [LD(float(v)) for v in par]
    if name == "linear":
        return q[0] * h + q[1]
    if name == "power":
        with np.errstate(all="ignore"):
            return q[0] * np.where(h > 0, np.exp(q[1] * np.log(np.where(h > 0, h, 1))), 0) + q[2]
    c, r, n = q
    if name == "gaussian":
        t = h / (r * 4 / 7)
        return -c * np.expm1(-t * t) + n
    if name == "exponential":
        return -c * np.expm1(-3 * h / r) + n
    if name == "spherical":
        t = np.minimum(h / r, 1)
        return c * (LD(3) / 2 * t - t * t * t / 2) + n
    if name == "hole-effect":
        t = 3 * h / r
        return c * (1 - (1 - t) * np.exp(-t)) + n
    raise KeyError(name)


def magnitude(name, par):
    """scale of the rounding error of a double evaluation (beyond the value itself)"""
    if name == "linear":
        return abs(float(par[1]))
    if name == "power":
        return abs(float(par[2]))
    return 2 * abs(float(par[0])) + abs(float(par[2]))


# ------------------------------------------------------------------ geometry
def centre(X):
    X = np.asarray(X, float)
    return (X.max(axis=0) + X.min(axis=0)) / 2.0


def adjust(X, c, scaling, angle):
    """Rotate clockwise by the angle(s) (degrees) about c (3D: about x, then y, then z), then stretch
    the second (and third) axis by the scaling."""
    X = np.asarray(X, LD)
    c = np.asarray(c, LD)
    V = X - c
    a = [LD(float(t)) * PI / 180 for t in angle]
    if X.shape[1] == 2:
        co, si = np.cos(a[0]), np.sin(a[0])
        x, y = V[:, 0], V[:, 1]
        V = np.stack([co * x + si * y, -si * x + co * y], axis=1)
        V[:, 1] = V[:, 1] * LD(float(scaling[0]))
    else:
        x, y, z = V[:, 0], V[:, 1], V[:, 2]
        co, si = np.cos(a[0]), np.sin(a[0])
        y, z = co * y + si * z, -si * y + co * z           # about x
        co, si = np.cos(a[1]), np.sin(a[1])
        x, z = co * x - si * z, si * x + co * z            # about y
        co, si = np.cos(a[2]), np.sin(a[2])
        x, y = co * x + si * y, -si * x + co * y           # about z
        V = np.stack([x, y * LD(float(scaling[0])), z * LD(float(scaling[1]))], axis=1)
    return V + c


def edist(A, B):
    D = np.asarray(A, LD)[:, None, :] - np.asarray(B, LD)[None, :, :]
    return np.sqrt((D * D).sum(axis=2))


def gdist(A, B):
    """great circle distance in degrees between rows (lon, lat) of A and B, via 3D vectors"""
    def vec(P):
        P = np.asarray(P, LD)
        lon, lat = np.remainder(P[:, 0], 360) * PI / 180, P[:, 1] * PI / 180
        return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], axis=1)
    a, b = vec(A)[:, None, :], vec(B)[None, :, :]
    d = np.sqrt(((a - b) ** 2).sum(axis=2))
    s = np.sqrt(((a + b) ** 2).sum(axis=2))
    return 2 * np.arctan2(d, s) * 180 / PI


# ------------------------------------------------------------------ kriging
class System:
    """gam: callable LD distances -> LD semivariances; Xa: adjusted data coordinates (or lon/lat);
    F: (n, p) drift values at the data (without the constant)."""

    def __init__(self, Xa, z, gam, gmag, cmag, F=None, geo=False, dF=None, unbias=True):
        self.Xa, self.z = np.asarray(Xa, LD), np.asarray(z, LD)
        self.gam, self.gmag, self.geo = gam, float(gmag), geo
        n = self.n = len(self.z)
        self.F = np.zeros((n, 0), LD) if F is None else np.asarray(F, LD)
        p = self.p = self.F.shape[1]
        self.cmag = float(cmag)
        self.dist = gdist if geo else edist
        D = self.dist(self.Xa, self.Xa)
        np.fill_diagonal(D, 0)
        N = n + 1 + p
        A = np.zeros((N, N), LD)
        G, dG = self._gamma(D)
        A[:n, :n] = -G
        A[np.arange(n), np.arange(n)] = 0
        np.fill_diagonal(dG, 0)
        A[:n, n:n + p] = self.F
        A[n:n + p, :n] = self.F.T
        self.unbias = unbias
        if unbias:
            A[:n, N - 1] = 1
            A[N - 1, :n] = 1
        else:           # an unknown of its own that is zero
            A[N - 1, N - 1] = np.abs(A[:n, :n]).max() or 1
        self.A = A
        self.N = N
        dA = np.zeros((N, N))
        dA[:n, :n] = dG
        f = 32 * EPS * np.abs(self.F).astype(float)
        if dF is not None:
            f = f + np.asarray(dF, float)
        dA[:n, n:n + p] = f
        dA[n:n + p, :n] = f.T
        self.dA = dA
        if not np.all(np.isfinite(A.astype(float))):
            raise IllConditioned("non-finite")
        # equilibrated copy for the reference solution; invariant under scaling of drift terms
        s = np.ones(N)
        gs = max(float(np.abs(A[:n, :n]).max()), 1e-300)
        for k in range(n, N - 1):
            m = float(np.abs(A[:n, k]).max())
            s[k] = gs / m if m > 0 else 1.0
        s[N - 1] = gs if unbias else 1.0
        self.s = s.astype(LD)
        self.As = A * self.s[:, None] * self.s[None, :]
        try:
            self.lu = sl.lu_factor(self.As.astype(float))
            A64 = A.astype(float)
            self.Ainv = np.abs(sl.inv(A64))
            P, L, U = sl.lu(A64)
            self.LU = np.abs(P @ np.abs(L) @ np.abs(U))
            self.sv = sl.svdvals(A64)
        except (sl.LinAlgError, ValueError) as e:
            raise IllConditioned(str(e))
        if not np.all(np.isfinite(self.Ainv)) or self.sv[-1] <= 1e-14 * self.sv[0]:
            raise IllConditioned("singular")

    def _gamma(self, D):
        d64 = D.astype(float)
        G = np.asarray(self.gam(D), LD)
        dd = 32 * EPS * (self.cmag + d64)
        with np.errstate(all="ignore"):
            up = np.asarray(self.gam(D + dd), LD)
            dn = np.asarray(self.gam(np.where(D > dd, D - dd, D)), LD)
            dg = np.maximum(np.abs(up - G), np.abs(dn - G)).astype(float)
        dg += 32 * EPS * (np.abs(G).astype(float) + self.gmag)
        return G, dg

    def inverses(self, pinv):
        c = self.__dict__.setdefault("_inv", {})
        if pinv not in c:
            A64 = self.A.astype(float)
            try:
                if pinv:
                    r = np.random.default_rng(self.N)
                    c[pinv] = []
                    for q in [np.arange(self.N), np.arange(self.N)[::-1], *(r.permutation(self.N) for _ in range(3))]:
                        back = np.argsort(q)
                        for f in (sl.pinv, sl.pinvh):
                            c[pinv].append(f(A64[np.ix_(q, q)])[np.ix_(back, back)])
                else:
                    # orders of the unknowns an implementation might use: pivoting depends on them
                    r = np.random.default_rng(self.N)
                    perms = [np.arange(self.N), np.arange(self.N)[::-1]]
                    perms += [r.permutation(self.N) for _ in range(3)]
                    perms += [np.r_[np.arange(self.n, self.N), np.arange(self.n)]]
                    # scipy's symmetric inverse is sensitive to the order of the drift terms
                    if self.p > 1:
                        if self.p <= 4:
                            dp = list(itertools.permutations(range(self.p)))
                        else:
                            dp = [r.permutation(self.p) for _ in range(24)]
                        perms += [np.r_[np.arange(self.n), self.n + np.array(o), self.N - 1] for o in dp]
                    c[pinv] = [np.linalg.inv(A64)]
                    for q in perms:
                        back = np.argsort(q)
                        c[pinv].append(sl.inv(A64[np.ix_(q, q)])[np.ix_(back, back)])
                    # ... and, with drift values of other magnitudes, to the last bit of the entries
                    for _ in range(5 if self.p else 0):
                        e = np.triu(r.integers(-1, 2, A64.shape)) * EPS
                        c[pinv].append(sl.inv(A64 * (1 + e + np.triu(e, 1).T)))
            except (sl.LinAlgError, np.linalg.LinAlgError) as e:
                raise IllConditioned(str(e))
        return c[pinv]

    def solve(self, Qa, coincide, exact=True, FQ=None, dFQ=None, pinv=False, z=None):
        """coincide: bool (m, n), which data each evaluation point coincides with.
        Returns z, variance (LD) and their tolerances (float)."""
        Qa = np.asarray(Qa, LD)
        m, n, N, p = len(Qa), self.n, self.N, self.p
        z = self.z if z is None else np.asarray(z, LD)
        D = self.dist(Qa, self.Xa)
        D = np.where(coincide, 0, D)
        G, dG = self._gamma(D)
        B = np.zeros((N, m), LD)
        dB = np.zeros((N, m))
        B[:n] = -G.T
        self.gb = float(np.abs(G).max())      # largest semivariance between data and evaluation points
        dB[:n] = dG.T
        if exact:
            B[:n][coincide.T] = 0
            dB[:n][coincide.T] = 0
        if p:
            B[n:n + p] = np.asarray(FQ, LD).T
            dB[n:n + p] = 32 * EPS * np.abs(B[n:n + p]).astype(float)
            if dFQ is not None:
                dB[n:n + p] += np.asarray(dFQ, float).T
        B[N - 1] = 1 if self.unbias else 0
        Bs = B * self.s[:, None]
        if not np.all(np.isfinite(Bs.astype(float))):
            raise IllConditioned("non-finite")
        Xs = sl.lu_solve(self.lu, Bs.astype(float)).astype(LD)
        last = None
        for _ in range(8):
            R = Bs - self.As @ Xs
            if not np.all(np.isfinite(R.astype(float))):
                raise IllConditioned("refinement")
            dX = sl.lu_solve(self.lu, R.astype(float))
            Xs = Xs + dX
            last = np.abs(dX).max() / max(float(np.abs(Xs).max()), 1e-300)
            if not np.isfinite(last):
                raise IllConditioned("refinement")
            if last < 1e-17:
                break
        if last > 1e-13:
            raise IllConditioned("refinement")
        X = Xs * self.s[:, None]
        Z = (X[:n] * z[:, None]).sum(axis=0)
        S = -(X * B).sum(axis=0)
        # --- how far a double-precision implementation may be off:
        # backward error of Gaussian elimination, perturbation of the inputs (rounded coordinates,
        # distances, semivariances, drifts), and 300 x what standard double algorithms actually do here
        aX, aB = np.abs(X).astype(float), np.abs(B).astype(float)
        az = np.abs(z).astype(float)
        E = N * EPS * (self.Ainv @ (self.LU @ (self.Ainv @ aB))) + self.Ainv @ (self.dA @ aX + dB)
        tz = (E[:n] * az[:, None]).sum(axis=0) + 4 * N * EPS * (aX[:n] * az[:, None]).sum(axis=0)
        ts = (E * aB).sum(axis=0) + (aX * dB).sum(axis=0) + 4 * N * EPS * (aX * aB).sum(axis=0)
        ez = es = 0.0
        B64, z64 = B.astype(float), z.astype(float)
        for inv in self.inverses(pinv):
            Y = inv @ B64
            ez = max(ez, float(np.abs(z64 @ Y[:n] - Z).max()))
            es = max(es, float(np.abs(-(Y * B64).sum(axis=0) - S).max()))
        tz, ts = tz + 300 * ez, ts + 300 * es
        if pinv:
            # spectral pseudo-inverses are accurate norm-wise only
            d = 64 * N * EPS * self.sv[0] / self.sv[-1]
            nx = np.sqrt((aX * aX).sum(axis=0))
            tz = tz + d * nx * float(np.sqrt((az * az).sum()))
            ts = ts + d * nx * np.sqrt((aB * aB).sum(axis=0))
        # floor, far below what any change of behaviour amounts to
        tz = tz + 1e-9 * float(az.max())
        ts = ts + 1e-9 * float(np.abs(self.A[:n, :n]).max())
        return Z, S, 2 * tz + 1e-300, 2 * ts + 1e-300

"""Executable reference model of the semi-discrete transport problem.

Written from the weak form of the equations, by quadrature, and independent of
the closed-form matrices, loops and caches of the implementation:

  slab    d/dt int B psi  = int (dB/dt) psi + mu int B' psi
                            - [B (mu - v) psi^] + int B (q - sigma psi)
  sphere  the same with r^2 dr and the angular redistribution term, whose
          angular derivative is a finite volume difference with the flux
          (1-mu^2) psi at the midpoints between ordinates.

psi^ is the upwind value with respect to the velocity relative to the moving
edge.  Every quantity is a pure function of (problem, t, state).
"""
import math
import numpy as np
from numpy.polynomial import legendre as leg, chebyshev as cheb

LN, LW = leg.leggauss(24)
FN, FW = leg.leggauss(48)


def lobatto(n):
    if n == 1:
        return np.zeros(1), np.zeros(1)
    c = np.zeros(n)
    c[n - 1] = 1
    d = leg.legder(c)
    x = np.concatenate(([-1.0], np.sort(np.real(leg.legroots(d))), [1.0])) if n > 2 else np.array([-1.0, 1.0])
    for _ in range(3):                      # polish
        if n > 2:
            xi = x[1:-1]
            xi = xi - leg.legval(xi, d) / leg.legval(xi, leg.legder(d))
            x[1:-1] = xi
    w = 2 / (n * (n - 1)) / leg.legval(x, c) ** 2
    return x, w


def ordinates(n, name):
    return leg.leggauss(n) if name == 'gauss_legendre' else lobatto(n)


def basis(geom, M, x, a, b):
    """B_0..B_M at x on the cell [a, b]"""
    h = b - a
    z = (2 * np.asarray(x, float) - a - b) / h
    out = np.zeros((M + 1, z.size))
    for n in range(M + 1):
        c = np.zeros(n + 1)
        c[n] = 1
        if geom == 'slab':
            out[n] = math.sqrt((2 * n + 1) / h) * leg.legval(z, c)
        else:
            out[n] = (1 if n == 0 else math.sqrt(2)) / math.sqrt(math.pi * h) * cheb.chebval(z, c)
    return out


def basis_dz(geom, M, z, h):
    out = np.zeros((M + 1, z.size))
    for n in range(M + 1):
        c = np.zeros(n + 1)
        c[n] = 1
        if geom == 'slab':
            out[n] = math.sqrt((2 * n + 1) / h) * leg.legval(z, leg.legder(c))
        else:
            out[n] = (1 if n == 0 else math.sqrt(2)) / math.sqrt(math.pi * h) * cheb.chebval(z, cheb.chebder(c))
    return out


class Ref:
    def __init__(self, p, count=0):
        self.p = p
        self.geom = p['geom']
        self.N, self.M, self.A = int(p['N_spaces'][count]), int(p['Ms'][count]), int(p['N_angles'][count])
        self.src = p['source']
        self.x0 = float(p['x0'][count] if self.src == 'gaussian_IC' else p['x0'][0])
        self.T = float(p['tfinal'])
        self.t0 = float(p['t0'])
        self.unc = bool(p['uncollided'])
        self.mov = bool(p['moving'])
        self.st, self.ss = float(p['sigma_t']), float(p['sigma_s'])
        self.sig = float(p['sigma'])
        self.q = float(p['strength'])
        self.speed = {'one': 1.0, 'sqrt_3': 1 / math.sqrt(3)}[p['edge_v']]
        self.mus, self.ws = ordinates(self.A, p['weights'])
        self.w = self.ws / self.ws.sum()
        if self.geom == 'slab':
            self.qn, self.qw = leg.leggauss(2 * self.M + 1)
        else:
            n = 6 * self.M + 1
            self.qn = np.cos((2 * np.arange(1, n + 1) - 1) / (2 * n) * math.pi)
            self.qw = np.full(n, math.pi / n)
        self.finite = bool(p['finite'])
        self.sqrt_t, self.move_factor = bool(p['move_type'][2]), float(p['move_factor'])
        self.W = float(p['domain_width']) / 2
        self._init_mesh()

    # ---- mesh ---------------------------------------------------------
    def _init_mesh(self):
        N, x0 = self.N, self.x0
        thick = bool(self.p.get('thick'))
        if thick and self.src in ('gaussian_IC', 'gaussian_source') and not self.mov:
            # an optically thick pulse or source rests on the mesh it starts on
            self.e0 = np.linspace(-x0, x0, N + 1)
            self.v0 = np.zeros(N + 1)
        elif self.src in ('plane_IC', 'gaussian_IC', 'gaussian_source') or (thick and self.src != 'boundary_source'):
            lo = 0.0 if self.geom == 'sphere' else -x0
            self.e0 = np.linspace(lo, x0, N + 1)
            self.v0 = self.e0 / x0 * self.speed
        elif self.src in ('square_IC', 'square_source') and self.geom == 'sphere':
            n_in = N // 2 + 1
            self.e0 = np.concatenate((np.linspace(0, x0, n_in + 1),
                                      np.linspace(x0, x0 + 1e-5, N + 1 - n_in)[1:]))
            self.v0 = np.zeros(N + 1)
            self.v0[n_in + 1:] = (self.e0[n_in + 1:] - x0) / (self.e0[-1] - x0) * self.speed
        elif self.src in ('square_IC', 'square_source'):
            mid, side = N // 2, N // 4
            dx = 1e-2
            s = lobatto(N // 4 + 1)[0]
            right = x0 + dx * (s + 1) / 2
            left = -x0 - dx * (1 - s) / 2
            middle = x0 * lobatto(N // 2 + 1)[0]
            self.e0 = np.concatenate((left[:-1], middle[:-1], right))
            self.v0 = np.zeros(N + 1)
            self.v0[:side] = (self.e0[:side] + x0) / (self.e0[-1] - x0) * self.speed
            self.v0[mid + side + 1:] = (self.e0[mid + side + 1:] - x0) / (self.e0[-1] - x0) * self.speed
        else:                                # boundary source
            self.e0 = np.linspace(-x0, x0, N + 1)
            v = float(self.p['v0']) if self.mov else 0.0
            shock = -self.T * v
            fin = np.concatenate((np.linspace(-x0, shock, N // 2 + 1)[:-1],
                                  np.linspace(shock, x0, N // 2 + 1)))
            self.v0 = (fin - self.e0) / self.T

    def mesh_moving(self, t):
        square = self.src in ('square_IC', 'square_source')
        if self.sqrt_t:
            # edges follow the root of time, at least of 1e-10
            root = self.move_factor * math.sqrt(max(t, 1e-10))
            return self.e0 + self.v0 * root, self.v0 * root / 2 / max(t, 1e-10)
        if not (self.finite and square):
            return self.e0 + self.v0 * t, self.v0
        # finite domain: the mesh rests when its last edge reaches the end
        two_stage = self.src == 'square_source' and self.geom == 'slab'
        if two_stage and self.T > self.t0:
            target = np.linspace(-self.p['pad'], self.p['pad'], self.N + 1)
            e1 = self.e0 + self.v0 * self.t0
            d = self.T - self.t0
            acc = 2 * (target - e1 - self.v0 * d) / d ** 2
        else:
            acc = np.zeros(self.N + 1)
            e1 = self.e0 + self.v0 * self.t0

        def at(s):
            if two_stage and s > self.t0 and self.T > self.t0:
                d = s - self.t0
                return e1 + self.v0 * d + acc * d * d / 2, self.v0 + acc * d
            return self.e0 + self.v0 * s, self.v0
        wall = math.inf
        v = self.v0[-1]
        if v > 0:
            wall = max(self.W - self.e0[-1], 0) / v
            if two_stage and self.T > self.t0 and wall > self.t0:
                gap, a = self.W - e1[-1], acc[-1]
                disc = v * v + 2 * a * gap
                wall = math.inf if disc < 0 else self.t0 + 2 * gap / (v + math.sqrt(disc))
        self.wall = wall
        e, vel = at(min(t, wall))
        if t >= wall:
            vel = np.zeros(self.N + 1)
        return e, vel

    def mesh(self, t):
        if self.mov:
            return self.mesh_moving(t)
        if self.finite and self.src == 'square_IC':
            return np.linspace(-self.W, self.W, self.N + 1), np.zeros(self.N + 1)
        return self.mesh_moving(self.T)[0], np.zeros(self.N + 1)

    # ---- uncollided scalar flux --------------------------------------
    @staticmethod
    def _overlap(x, s, x0):
        """measure of {mu in [-1,1] : |x - mu s| < x0}"""
        if s <= 0:
            return 2.0 if abs(x) < x0 else 0.0
        lo, hi = max(-1.0, (x - x0) / s), min(1.0, (x + x0) / s)
        return max(0.0, hi - lo)

    def uncollided_flux(self, xs, t):
        xs = np.asarray(xs, float)
        out = np.zeros(xs.size)
        if not self.unc:
            return out
        x0, sg, src = self.x0, self.sig, self.src
        if self.geom == 'sphere':
            if src == 'square_IC':
                # collided IC is isotropic 3/(8 pi R^3); flux of the free streaming ball
                for i, r in enumerate(xs):
                    tt, r = t + 1e-12, max(r, 1e-12)
                    c = (tt * tt + r * r - x0 * x0) / (2 * r * tt)
                    out[i] = 3 / (8 * math.pi * x0 ** 3) * (1 - min(1.0, max(-1.0, c)))
                out *= math.exp(-t)
            return out * self.q
        if src == 'plane_IC':
            out[np.abs(xs) <= t] = math.exp(-t) / (2 * t + 1e-12)
        elif src == 'square_IC':
            out[:] = [self._overlap(x, t, x0) / 2 * math.exp(-t) for x in xs]
        elif src == 'gaussian_IC':
            for i, x in enumerate(xs):
                # piecewise Gauss over mu; resolve the bump
                out[i] = self._gauss_mu(x, t) / 2 * math.exp(-t)
        elif src in ('square_source', 'gaussian_source'):
            lo, hi = max(t - self.t0, 0.0), t          # s = age of the particle
            if hi <= lo:
                return out
            two = self.A == 2
            for i, x in enumerate(xs):
                ax = abs(x)
                if two:
                    br = [math.sqrt(3) * abs(ax - x0), math.sqrt(3) * (ax + x0)]
                else:
                    br = [abs(ax - x0), ax + x0]
                if src == 'gaussian_source':
                    br = list(np.linspace(lo, hi, 7)[1:-1])
                if src == 'square_source':     # the integrand varies like 1/s
                    s0 = max(lo, min([b for b in br if b > 0] + [hi]))
                    while s0 < hi:
                        br.append(s0)
                        s0 *= 4
                cuts = [lo] + sorted(b for b in set(br) if lo < b < hi) + [hi]
                tot = 0.0
                for a, b in zip(cuts[:-1], cuts[1:]):
                    s = (b - a) / 2 * FN + (a + b) / 2
                    if two:
                        m = 1 / math.sqrt(3)
                        if src == 'square_source':
                            f = (np.abs(x - m * s) < x0) * 0.5 + (np.abs(x + m * s) < x0) * 0.5
                        else:
                            f = 0.5 * (np.exp(-(x - m * s) ** 2 / sg ** 2) + np.exp(-(x + m * s) ** 2 / sg ** 2))
                    elif src == 'square_source':
                        f = np.array([self._overlap(x, y, x0) / 2 for y in s])
                    else:
                        f = np.array([self._gauss_mu(x, y) / 2 for y in s])
                    tot += (b - a) / 2 * np.sum(FW * np.exp(-s) * f)
                out[i] = tot
        elif src == 'boundary_source':
            for i, x in enumerate(xs):
                out[i] = sum(2 * w * self._ray(x, mu, t) for mu, w in zip(self.mus, self.w) if mu > 0)
        return out * self.q

    def _gauss_mu(self, x, s):
        """int_{-1}^{1} exp(-((x - mu s)/sigma)^2) dmu"""
        sg = self.sig
        if s < 1e-9:
            return 2 * math.exp(-(x / sg) ** 2)
        return sg * math.sqrt(math.pi) / (2 * s) * (math.erf((x + s) / sg) - math.erf((x - s) / sg))

    def _ray(self, x, mu, t):
        """boundary source at -x0 switched on at 0 and off at t0, medium with
        the travelling shock opacity"""
        L = x + self.x0
        if not (mu >= abs(L / (t + 1e-10)) and abs(L) >= mu * (t - self.t0)):
            return 0.0
        v = float(self.p['v0'])
        te = t - L / mu
        shock = (-v * self.x0 - te * v * mu) / (v + mu)
        cuts = [-self.x0] + ([shock] if -self.x0 < shock < x else []) + [x]
        tau = 0.0
        for a, b in zip(cuts[:-1], cuts[1:]):
            s = (b - a) / 2 * FN + (a + b) / 2
            tau += (b - a) / 2 * np.sum(FW * self.sigma_at(s, te + (s + self.x0) / mu, shock_side=(a + b) / 2 > shock))
        return math.exp(-tau / mu)

    # ---- opacity ------------------------------------------------------
    def sigma_at(self, x, t, shock_side=None):
        f = self.p['sigma_func']
        if f == 'gaussian':
            return np.exp(-x ** 2 / 8)
        if f == 'siewert1':
            return np.exp(-x - 2.5)
        if f == 'siewert2':
            return np.exp(-x / 1e11)
        if f == 'f_sedov':
            v = float(self.p['v0'])
            y = x + v * t
            if shock_side is not None:
                return np.exp(-(y + 1) ** 2 / 4) if shock_side else np.full(x.shape, 0.2)
            return np.where(y >= 0, np.exp(-(y + 1) ** 2 / 4), 0.0) + np.where(y <= 0, 0.2, 0.0)
        return np.ones(x.shape)

    # ---- initial condition -------------------------------------------
    def initial(self):
        e, _ = self.mesh(0.0)
        U = np.zeros((self.A, self.N, self.M + 1))
        if self.unc:
            return U
        x0 = self.x0
        if self.src == 'plane_IC' and not self.mov and self.N % 2 == 0:
            if self.geom == 'slab':
                x0 = e[self.N // 2 + 1] - e[self.N // 2 - 1]
            else:
                x0 = e[1] - e[0]
        for k in range(self.N):
            a, b = e[k], e[k + 1]
            x = (b - a) / 2 * self.qn + (a + b) / 2
            if self.geom == 'slab':
                if self.src == 'plane_IC':
                    f = (np.abs(x) < x0) * self.q / 2 / x0 / 2
                elif self.src == 'square_IC':
                    f = (np.abs(x) < x0) * self.q / 2
                elif self.src == 'gaussian_IC':
                    f = self.q / 2 * np.exp(-x ** 2 / self.sig ** 2)
                else:
                    f = 0 * x
                c = (b - a) / 2 * (basis('slab', self.M, x, a, b) @ (self.qw * f))
            else:
                if self.src == 'plane_IC':
                    f = (x < x0) * self.q / x0 ** 3
                elif self.src == 'square_IC':
                    f = (x < x0) * self.q * 3 / (8 * math.pi * x0 ** 3)
                else:
                    f = 0 * x
                c = (b - a) * (basis('sphere', self.M, x, a, b) @ (self.qw * f))
            U[:, k, :] = c
        return U

    # ---- source -------------------------------------------------------
    def source(self, t, a, b):
        M = self.M
        S = np.zeros(M + 1)
        x = (b - a) / 2 * self.qn + (a + b) / 2
        if self.geom == 'sphere':
            if self.unc and self.src == 'square_IC':
                f = self.uncollided_flux(x, t) * x ** 2 * np.sqrt(1 - self.qn ** 2)
                S = (b - a) / 2 * (basis('sphere', M, x, a, b) @ (self.qw * f)) * self.ss
            return S
        if self.unc:
            if self.src == 'plane_IC' and self.mov:
                S[0] = math.exp(-t) / (2 * t + self.x0) * math.sqrt(b - a) * self.q
            else:
                S = (b - a) / 2 * (basis('slab', M, x, a, b) @ (self.qw * self.uncollided_flux(x, t)))
            return S * self.ss
        if self.src == 'square_source':
            f = (np.abs(x) <= self.x0) * (1.0 if t < self.t0 else 0.0)
        elif self.src == 'gaussian_source':
            f = np.exp(-x ** 2 / self.sig ** 2) * (1.0 if t <= self.t0 else 0.0)
        else:
            return S
        return (b - a) / 2 * (basis('slab', M, x, a, b) @ (self.qw * f)) * self.q

    # ---- derivative ---------------------------------------------------
    def edge_values(self, e):
        """B at the left and right end of every cell"""
        L, R = [], []
        for k in range(self.N):
            v = basis(self.geom, self.M, np.array([e[k], e[k + 1]]), e[k], e[k + 1])
            # exact end values: z = -1, +1
            L.append(v[:, 0])
            R.append(v[:, 1])
        return np.array(L), np.array(R)

    def boundary_value(self, side, t):
        p = self.p
        if p['boundary_source'] and not self.unc and t <= self.t0 and p['boundary_on'][side]:
            return float(p['boundary_strength'])
        return None

    def derivative(self, t, V):
        """(dV/dt, magnitude of the terms summed in each entry)"""
        A, N, M = self.A, self.N, self.M
        U = np.asarray(V, float).reshape((A, N, M + 1))
        e, v = self.mesh(t)
        BL, BR = self.edge_values(e)
        left_val = np.einsum('akj,kj->ak', U, BL)
        right_val = np.einsum('akj,kj->ak', U, BR)
        out = np.zeros((A, N, M + 1))
        mag = np.zeros((A, N, M + 1))
        const = self.p['sigma_func'] == 'constant'
        for k in range(N):
            a, b, da, db = e[k], e[k + 1], v[k], v[k + 1]
            h, dh = b - a, db - da
            x = h / 2 * LN + (a + b) / 2
            wq = h / 2 * LW
            B = basis(self.geom, M, x, a, b)
            Bz = basis_dz(self.geom, M, LN, h)
            zdot = -(da + db) / h - LN * dh / h
            Bt = -0.5 * dh / h * B + Bz * zdot
            Bx = Bz * 2 / h
            jac = x ** 2 if self.geom == 'sphere' else np.ones_like(x)
            G = (Bt * (wq * jac)) @ B.T
            L = (Bx * (wq * jac)) @ B.T
            S = self.source(t, a, b)
            scal = np.einsum('a,aj->j', self.w, U[:, k, :])
            if const:
                loss = self.st * U[:, k, :]
                gain = self.ss * scal
            else:
                xq = h / 2 * self.qn + (a + b) / 2
                c = h / 2 * (basis('slab', int(self.p['Msigma']), xq, a, b) @ (self.qw * self.sigma_at(xq, t)))
                sh = c @ basis('slab', int(self.p['Msigma']), x, a, b)
                K = (B * (wq * sh)) @ B.T
                loss = self.st * U[:, k, :] @ K.T
                gain = self.ss * K @ scal
            if self.geom == 'sphere':
                Mass = (B * (wq * jac)) @ B.T
                J = (B * (wq * x)) @ B.T
                dM = (Bt * (wq * jac)) @ B.T
                dM = dM + dM.T + np.outer(BR[k], BR[k]) * b * b * db - np.outer(BL[k], BL[k]) * a * a * da
            for l in range(A):
                mu = self.mus[l]
                u = U[l, k, :]
                sl, sr = mu - da, mu - db
                if sl >= 0:
                    if k > 0:
                        lv = right_val[l, k - 1]
                    else:
                        bv = self.boundary_value(0, t)
                        if bv is not None:
                            lv = bv
                        elif self.geom == 'sphere':
                            lv = left_val[A - 1 - l, 0] if l >= A / 2 else left_val[0, 0]
                        else:
                            lv = 0.0
                else:
                    lv = left_val[l, k]
                if sr >= 0:
                    rv = right_val[l, k]
                elif k < N - 1:
                    rv = left_val[l, k + 1]
                else:
                    bv = self.boundary_value(1, t)
                    rv = 0.0 if bv is None else bv
                ja, jb = (a * a, b * b) if self.geom == 'sphere' else (1.0, 1.0)
                fluxR = jb * BR[k] * sr * rv
                fluxL = ja * BL[k] * sl * lv
                if self.geom == 'slab':
                    terms = [G @ u, -fluxR, fluxL, mu * (L @ u), -loss[l], gain, 0.5 * S]
                    out[l, k] = sum(terms)
                    mag[l, k] = sum(np.abs(q) for q in terms)
                else:
                    ang = self.angular(l, U[:, k, :])
                    terms = [G @ u, -fluxR, fluxL, mu * (L @ u), -(J @ ang), 0.5 * S, -(dM @ u)]
                    inv = np.linalg.inv(Mass)
                    out[l, k] = inv @ sum(terms) + gain - loss[l]
                    mag[l, k] = np.abs(inv) @ sum(np.abs(q) for q in terms) + np.abs(gain) + np.abs(loss[l])
        return out.reshape(-1), mag.reshape(-1)

    def angular(self, l, u):
        mu, A = self.mus, self.A
        hi = 1.0 if l == A - 1 else (mu[l] + mu[l + 1]) / 2
        lo = -1.0 if l == 0 else (mu[l] + mu[l - 1]) / 2
        fh = 0.0 if l == A - 1 else (1 - hi ** 2) * (u[l] + u[l + 1]) / 2
        fl = 0.0 if l == 0 else (1 - lo ** 2) * (u[l] + u[l - 1]) / 2
        return (fh - fl) / (hi - lo)

    # ---- outputs ------------------------------------------------------
    def nodes(self, t):
        e, _ = self.mesh(t)
        m = max(self.M, 1)
        if self.geom == 'slab':
            z = leg.leggauss(m)[0]
        else:
            z = np.sort(np.cos((2 * np.arange(1, m + 1) - 1) / (2 * m) * math.pi))
        return np.concatenate([e[k] + (z + 1) * (e[k + 1] - e[k]) / 2 for k in range(self.N)])

    def psi(self, t, V, xs, side='left', e=None):
        """angular flux at xs; at an interior edge the value of the cell on
        the given side; 0 outside the mesh"""
        U = np.asarray(V).reshape((self.A, self.N, self.M + 1))
        if e is None:
            e, _ = self.mesh(t)
        out = np.zeros((self.A, len(xs)))
        for i, x in enumerate(xs):
            if not (e[0] <= x <= e[-1]):
                continue
            k = int(np.searchsorted(e, x, side=side)) - 1
            j = int(np.argmin(np.abs(e - x)))
            if abs(e[j] - x) <= 1e-13 * np.abs(e).max():      # a tie but for rounding
                k = j - 1 if side == 'left' else j
            k = min(max(k, 0), self.N - 1)
            out[:, i] = U[:, k, :] @ basis(self.geom, self.M, np.array([x]), e[k], e[k + 1])[:, 0]
        return out

    def phi(self, t, V, xs, side='left', e=None):
        return self.ws @ self.psi(t, V, xs, side, e) + self.uncollided_flux(xs, t)

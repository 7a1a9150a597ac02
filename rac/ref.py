"""Independent references (extended precision, other algorithms)."""
import numpy as np

L = np.longdouble
PI = L('3.14159265358979323846264338327950288')


def schmidt(nmax, theta):
    """P, dP/dtheta, P/sin(theta) by order-wise recursion of P/sin^m."""
    x = np.asarray(theta, dtype=L)
    c = np.where(x > 90, -np.cos((180 - x)/180*PI), np.cos(x/180*PI))
    s = np.where(x > 90, np.sin((180 - x)/180*PI), np.sin(x/180*PI))
    c = np.where(x == 90, L(0), c)
    P = np.zeros((nmax + 1, nmax + 1) + x.shape, dtype=L)
    PS = np.zeros_like(P)
    qmm = np.ones(x.shape, dtype=L)

    def put(n, m, q):
        P[n, m] = q*s**m
        if m:
            PS[n, m] = q*s**(m - 1)
    for m in range(nmax + 1):
        if m > 1:
            qmm = qmm*np.sqrt(L(2*m - 1)/(2*m))
        q2 = qmm
        put(m, m, q2)
        if m < nmax:
            q1 = c*np.sqrt(L(2*m + 1))*qmm
            put(m + 1, m, q1)
            for n in range(m + 2, nmax + 1):
                q = ((2*n - 1)*c*q1 - np.sqrt(L((n - 1)**2 - m*m))*q2
                     )/np.sqrt(L(n*n - m*m))
                put(n, m, q)
                q2, q1 = q1, q
    D = np.zeros_like(P)
    for n in range(1, nmax + 1):
        for m in range(n + 1):
            if m == 0:
                D[n, 0] = -np.sqrt(L(n*(n + 1))/2)*P[n, 1]
                continue
            lo = np.sqrt(L((n + m)*(n - m + 1)))*P[n, m - 1]
            if m == 1:
                lo = lo*np.sqrt(L(2))
            hi = 0 if m == n else np.sqrt(L((n + m + 1)*(n - m)))*P[n, m + 1]
            D[n, m] = (lo - hi)/2
    return P, D, PS


def order(nmin, nmax, mmax=None):
    """Degree and signed order of every coefficient."""
    out = []
    for n in range(nmin, nmax + 1):
        out.append((n, 0))
        for m in range(1, min(n, nmax if mmax is None else mmax) + 1):
            out += [(n, m), (n, -m)]
    return out


def basis(r, theta, phi, nmin, nmax, mmax, source, rref):
    """Field components of every unit coefficient at one point, (3, K)."""
    P, D, PS = schmidt(max(nmax, 1), theta)
    x = L(r)/L(rref)
    ph = L(phi)/180*PI
    K = order(nmin, nmax, mmax)
    out = np.zeros((3, len(K)), dtype=L)
    for k, (n, m) in enumerate(K):
        a = abs(m)
        w = x**(-(n + 2)) if source == 'internal' else x**(n - 1)
        f = (n + 1) if source == 'internal' else -n
        Y, dY = (np.cos(a*ph), -a*np.sin(a*ph)) if m >= 0 else (
            np.sin(a*ph), a*np.cos(a*ph))
        out[0, k] = f*w*P[n, a]*Y
        out[1, k] = -w*D[n, a]*Y
        out[2, k] = -w*PS[n, a]*dY
    return out


def field(c, r, theta, phi, nmin, nmax, mmax, source, rref):
    A = basis(r, theta, phi, nmin, nmax, mmax, source, rref)
    return np.asarray(A @ np.asarray(c, dtype=L)[:A.shape[1]], dtype=float)


def angles(rng, shape, poles=True):
    th = np.asarray(rng.uniform(0, 180, shape))
    f = th.reshape(-1)
    for i in range(f.size):
        k = rng.integers(0, 10)
        if poles and k == 0:
            f[i] = 0.
        elif poles and k == 1:
            f[i] = 180.
        elif k == 2:
            f[i] = 10.**-rng.integers(1, 10)
        elif k == 3:
            f[i] = 180. - 10.**-rng.integers(1, 10)
        elif k == 4:
            f[i] = 90.
        elif k == 5:
            f[i] = float(rng.integers(1, 180))
    return f.reshape(shape)


def bspline_basis(x, knots, order, deriv=0):
    """Values of all B-splines (Cox-de Boor) at scalar x in the base
    interval, right end included; derivative by the difference formula."""
    t = np.asarray(knots, dtype=L)
    n = len(t) - order
    if deriv:
        k = order - 1
        B = bspline_basis(x, t, order - 1, deriv - 1) if order > 1 else \
            np.zeros(n + 1, dtype=L)
        out = np.zeros(n, dtype=L)
        for j in range(n):
            a, b = t[j + k] - t[j], t[j + k + 1] - t[j + 1]
            out[j] = k*((B[j]/a if a else 0) - (B[j + 1]/b if b else 0))
        return out
    N = np.zeros(len(t) - 1, dtype=L)
    x = L(x)
    i = int(np.searchsorted(t, x, side='right')) - 1
    while i >= 0 and (i + 1 >= len(t) or t[i + 1] == t[i]):
        i -= 1
    N[i] = 1
    for k in range(1, order):
        for j in range(len(t) - 1 - k):
            a, b = t[j + k] - t[j], t[j + k + 1] - t[j + 1]
            N[j] = ((x - t[j])/a*N[j] if a else 0) + (
                (t[j + k + 1] - x)/b*N[j + 1] if b else 0)
        N[len(t) - 1 - k] = 0
    return N[:n]

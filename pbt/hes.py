"""Reference Heston model: Lewis' single integral with composite Gauss-Legendre quadrature, independent of the code under test."""
import math

import numpy as np

_X, _W = np.polynomial.legendre.leggauss(64)


def cf(u, tau, var0, vv, kappa, theta, rho):
    """E[exp(iu log(S_T / F))]; u complex array. Stable ("little trap") branch."""
    u = np.asarray(u, dtype=complex)
    iu = 1j * u
    b = kappa - rho * vv * iu
    d = np.sqrt(b * b + vv * vv * (iu + u * u))
    d = np.where(d.real < 0, -d, d)
    g = (b - d) / (b + d)
    e = np.exp(-d * tau)
    D = (b - d) / vv ** 2 * (1 - e) / (1 - g * e)
    C = kappa * theta / vv ** 2 * ((b - d) * tau - 2 * np.log((1 - g * e) / (1 - g)))
    return np.exp(C + D * var0)


def call(S0, tau, r, q, K, var0, vv, kappa, theta, rho):
    """Call price."""
    F = S0 * math.exp((r - q) * tau)
    k = math.log(F / K)

    def f(u):
        z = cf(u - 0.5j, tau, var0, vv, kappa, theta, rho)
        return (np.exp(1j * u * k) * z).real / (u * u + 0.25)

    hi = 8.0
    while hi < 1e6 and abs(cf(np.array([hi - 0.5j]), tau, var0, vv, kappa, theta, rho)[0]) / (hi * hi) > 1e-15:
        hi *= 1.5
    # panels: geometric near zero, then width bounded by the oscillation exp(iuk)
    edges = [0.0, 0.25, 0.5, 1.0, 2.0]
    step = min(8.0, 20.0 / max(abs(k), 1e-3))
    w = 1.0
    while edges[-1] < hi:
        w = min(w * 1.3, max(step, 0.05 * edges[-1] if abs(k) * edges[-1] * 0.05 < 20 else step))
        edges.append(edges[-1] + w)
    e = np.array(edges)
    mid, half = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
    u = mid[:, None] + half[:, None] * _X[None, :]
    I = np.sum(f(u.reshape(-1)).reshape(u.shape) * _W[None, :] * half[:, None])
    return math.exp(-r * tau) * (F - math.sqrt(F * K) / math.pi * I)


def price(cp, S0, tau, r, q, K, *par):
    c = call(S0, tau, r, q, K, *par)
    return c if cp == 1 else c - S0 * math.exp(-q * tau) + K * math.exp(-r * tau)


def bs(cp, F, K, sd, df):
    from pbt.bs import N
    if sd <= 0:
        return df * max(cp * (F - K), 0.0)
    d1 = math.log(F / K) / sd + sd / 2
    return df * cp * (F * N(cp * d1) - K * N(cp * (d1 - sd)))


def mean_var(tau, var0, kappa, theta):
    return theta * tau + (var0 - theta) * (1 - math.exp(-kappa * tau)) / kappa

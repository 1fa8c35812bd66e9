"""Reference definitions shared by the obligations (interpreted, never executed)."""
import numpy as np


def rad(x, unit):
    return x if unit == 'rad' else x * (np.pi / 180)


def bound(unit):
    return 90.0 if unit == 'deg' else (np.pi / 2 if unit == 'rad' else 1.0)


def sincos(th, unit):
    """sin and cos of a broadside angle given in a unit."""
    if unit == 'sin':
        return th, np.sqrt(1 - th * th)
    t = rad(th, unit)
    return np.sin(t), np.cos(t)


def coord(loc, d):
    return loc[:, d][:, None] if d < loc.shape[1] else np.zeros((loc.shape[0], 1))


def phase_ff1(loc, th, unit, wl):
    s, c = sincos(th, unit)
    return (2 * np.pi / wl) * (coord(loc, 0) * s + coord(loc, 1) * c)


def phase_ff2(loc, ae, unit, wl):
    az, el = rad(ae[:, 0], unit), rad(ae[:, 1], unit)
    return (2 * np.pi / wl) * (coord(loc, 0) * (np.cos(el) * np.cos(az)) + coord(loc, 1) * (np.cos(el) * np.sin(az)) + coord(loc, 2) * np.sin(el))


def dist_nf(loc, src):
    return np.sqrt((coord(loc, 0) - src[:, 0]) ** 2 + (coord(loc, 1) - src[:, 1]) ** 2 + coord(loc, 2) ** 2)


def phase_nf(loc, src, wl):
    r = dist_nf(loc, src)
    return -(2 * np.pi / wl) * (r - r[0, :])


def dphase_ff1(loc, th, unit, wl):
    s, c = sincos(th, unit)
    x, y = coord(loc, 0), coord(loc, 1)
    if unit == 'sin':
        return (2 * np.pi / wl) * (x - y * (s / c))
    f = 1.0 if unit == 'rad' else np.pi / 180
    return (2 * np.pi / wl) * f * (x * c - y * s)


def A_ff1(loc, th, unit, wl):
    return np.exp(1j * phase_ff1(loc, th, unit, wl))


def A_ff2(loc, ae, unit, wl):
    return np.exp(1j * phase_ff2(loc, ae, unit, wl))


def A_nf(loc, src, wl):
    return np.exp(1j * phase_nf(loc, src, wl))


def actual(loc, err):
    """Nominal locations plus errors, the lower-dimensional padded with zeros."""
    d = max(loc.shape[1], err.shape[1])
    cols = []
    for i in range(d):
        x = 0.0
        if i < loc.shape[1]:
            x = x + loc[:, i]
        if i < err.shape[1]:
            x = x + err[:, i]
        cols.append(x)
    return np.stack(cols, 1)


def herm(x):
    return x.conj().T


def inv(x):
    return np.linalg.inv(x)


def eye(n):
    return np.eye(n)

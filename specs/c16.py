import numpy as np
from scipy.signal import find_peaks
from scipy.ndimage import maximum_filter
from doatools.model.arrays import ArrayDesign, UniformLinearArray
from doatools.model.sources import FarField1DSourcePlacement, FarField2DSourcePlacement, NearField2DSourcePlacement
from doatools.estimation.grid import FarField1DSearchGrid, FarField2DSearchGrid, NearField2DSearchGrid
from doatools.estimation.beamforming import BartlettBeamformer
from doatools.estimation.music import MUSIC
from doatools.estimation.min_norm import MinNorm
from doatools.estimation.beamforming import MVDRBeamformer
from doatools.estimation.core import SpectrumBasedEstimatorBase, find_peaks_simple
from specs.lib import A_ff1, A_ff2, A_nf, herm
import probe


class User(SpectrumBasedEstimatorBase):
    """Estimator whose spectrum is an arbitrary function of the steering matrix."""

    def estimate(self, w, k, **kwargs):
        return self._estimate(lambda A: spec_of(A, w), k, **kwargs)


def spec_of(A, w):
    return np.abs(w @ A) ** 2


def best(sp, peaks, k):
    """Flat indices of the k largest peaks, ascending."""
    v = sp[peaks]
    top = np.argsort(v)[v.shape[0] - k:]
    return np.sort(np.ravel_multi_index(tuple(p[top] for p in peaks), sp.shape))


def show(r, with_spectrum):
    out = (r[0], len(r), None if r[1] is None else (r[1], r[1].locations, r[1].units, r[1].size))
    return out + (r[2],) if with_spectrum else out


def want(place, sp, peaks, k, units, with_spectrum):
    n = 3 if with_spectrum else 2
    if peaks[0].shape[0] < k:
        out = (False, n, None)
    else:
        x = place.locations[best(sp, peaks, k)]
        out = (True, n, (place, x, units, k))
    return out + (sp,) if with_spectrum else out


# --- built-in peak finder --------------------------------------------------------

def impl_ff1(loc: 'f[M,1]', w: 'c[M]', k: 'size>=1', x: 'f[N] in (-1,1)', unit: "{'rad','deg','sin'}", wl: 'f+', rs: '{True,False}'):
    """sizes: M>=2, N>=1
    fallback: M=2 N=5 k=1; M=2 N=7 k=2"""
    return show(User(ArrayDesign(loc, 'x'), wl, FarField1DSearchGrid(unit=unit, axes=(x,))).estimate(w, k, return_spectrum=rs), rs)


def spec_ff1(loc, w, k, x, unit, wl, rs):
    sp = spec_of(A_ff1(loc, x, unit, wl), w)
    return want(FarField1DSourcePlacement(x, unit), sp, (find_peaks(sp)[0],), k, (unit,), rs)


def impl_ff2(loc: 'f[M,2]', w: 'c[M]', k: 'size>=1', a: 'f[N] in (-1,1)', e: 'f[P] in (-1,1)', unit: "{'rad','deg'}", wl: 'f+', rs: '{True,False}'):
    """sizes: M>=2, N>=1, P>=1
    fallback: M=2 N=3 P=2 k=1; M=2 N=3 P=4 k=2; M=2 N=3 P=3 k=1"""
    return show(User(ArrayDesign(loc, 'x'), wl, FarField2DSearchGrid(unit=unit, axes=(a, e))).estimate(w, k, return_spectrum=rs), rs)


def product(a, e):
    return np.stack((np.repeat(a, e.shape[0]), np.tile(e, a.shape[0])), 1)


def spec_ff2(loc, w, k, a, e, unit, wl, rs):
    ae = product(a, e)
    sp = spec_of(A_ff2(loc, ae, unit, wl), w).reshape((a.shape[0], e.shape[0]))
    return want(FarField2DSourcePlacement(ae, unit), sp, np.where(sp == maximum_filter(sp, 3)), k, (unit, unit), rs)


def impl_nf(loc: 'f[M,2]', w: 'c[M]', k: 'size>=1', a: 'f[N]', e: 'f[P]', wl: 'f+', rs: '{True,False}'):
    """sizes: M>=2, N>=1, P>=1
    fallback: M=2 N=3 P=2 k=1; M=2 N=3 P=4 k=2; M=2 N=3 P=3 k=1"""
    return show(User(ArrayDesign(loc, 'x'), wl, NearField2DSearchGrid(axes=(a, e))).estimate(w, k, return_spectrum=rs), rs)


def spec_nf(loc, w, k, a, e, wl, rs):
    ae = product(a, e)
    sp = spec_of(A_nf(loc, ae, wl), w).reshape((a.shape[0], e.shape[0]))
    return want(NearField2DSourcePlacement(ae), sp, np.where(sp == maximum_filter(sp, 3)), k, ('m', 'm'), rs)


def impl_peak_finder(v: 'f[N]', m: 'f[N,P]'):
    """sizes: N>=1, P>=1"""
    return find_peaks_simple(v), find_peaks_simple(m)


def spec_peak_finder(v, m):
    return (find_peaks(v)[0],), np.where(m == maximum_filter(m, 3))


# --- custom peak finder -------------------------------------------------------------

def impl_custom(loc: 'f[M,1]', w: 'c[M]', k: 'size>=1', x: 'f[N] in (-1,1)', pk: 'i[L] in (0,N-1)', wl: 'f+', rs: '{True,False}'):
    """sizes: M>=2, N>=1, L>=0
    fallback: M=2 N=5 k=1 L=2; M=2 N=7 k=2 L=4; M=2 N=4 k=3 L=2"""
    seen = []

    def finder(sp):
        seen.append(sp)
        return (pk,)
    r = User(ArrayDesign(loc, 'x'), wl, FarField1DSearchGrid(axes=(x,)), peak_finder=finder).estimate(w, k, return_spectrum=rs)
    return show(r, rs), len(seen), seen[0]


def spec_custom(loc, w, k, x, pk, wl, rs):
    sp = spec_of(A_ff1(loc, x, 'rad', wl), w)
    return want(FarField1DSourcePlacement(x), sp, (pk,), k, ('rad',), rs), 1, sp


def impl_custom_2d(loc: 'f[M,2]', w: 'c[M]', k: 'size>=1', a: 'f[N] in (-1,1)', e: 'f[P] in (-1,1)', p1: 'i[L] in (0,N-1)', p2: 'i[L] in (0,P-1)', wl: 'f+', rs: '{True,False}'):
    """sizes: M>=2, N>=1, P>=1, L>=0
    fallback: M=2 N=3 P=2 k=1 L=2; M=2 N=3 P=4 k=2 L=3; M=2 N=3 P=3 k=1 L=2"""
    r = User(ArrayDesign(loc, 'x'), wl, FarField2DSearchGrid(axes=(a, e)), peak_finder=lambda sp: (p1, p2)).estimate(w, k, return_spectrum=rs)
    return show(r, rs)


def spec_custom_2d(loc, w, k, a, e, p1, p2, wl, rs):
    ae = product(a, e)
    sp = spec_of(A_ff2(loc, ae, 'rad', wl), w).reshape((a.shape[0], e.shape[0]))
    return want(FarField2DSourcePlacement(ae), sp, (p1, p2), k, ('rad', 'rad'), rs)


# --- every estimator follows the protocol ---------------------------------------------

def impl_estimators(loc: 'f[M,1]', R: 'H[M,M]', k: 'i in [1,M-1]', x: 'f[N] in (-1,1)', pk: 'i[L] in (0,N-1)', wl: 'f+', rs: '{True,False}', name: "{'bartlett','mvdr','music','minnorm'}"):
    """sizes: M>=2, N>=1, L>=0
    fallback: M=2 N=5 k=1 L=2; M=3 N=7 k=2 L=4; M=4 N=4 k=3 L=2"""
    cls = {'bartlett': BartlettBeamformer, 'mvdr': MVDRBeamformer, 'music': MUSIC, 'minnorm': MinNorm}[name]
    e = cls(ArrayDesign(loc, 'x'), wl, FarField1DSearchGrid(axes=(x,)), peak_finder=lambda s: (pk,))
    r = e.estimate(R, k, return_spectrum=rs)
    return r[0], len(r), None if r[1] is None else r[1].size


def spec_estimators(loc, R, k, x, pk, wl, rs, name):
    n = 3 if rs else 2
    return (pk.shape[0] >= k), n, (None if pk.shape[0] < k else k)


# --- refinement -------------------------------------------------------------------------

def refine(axis, i, density):
    n = axis.shape[0]
    lo, hi = max(0, i - 1), min(n - 1, i + 1)
    return np.linspace(axis[lo], axis[hi], (hi - lo) * density + 1)


def impl_refine_1d(loc: 'f[M,1]', w: 'c[M]', x: 'f[N] in (-1,1)', pk: 'i in [0,N-1]', wl: 'f+', density: 'size>=1', unit: "{'rad','sin'}"):
    """sizes: M>=2, N>=2
    fallback: M=2 N=4 density=2; M=2 N=3 density=3"""
    g = FarField1DSearchGrid(unit=unit, axes=(x,))
    r = User(ArrayDesign(loc, 'x'), wl, g, peak_finder=lambda sp: (np.array([pk]),)).estimate(w, 1, refine_estimates=True, refinement_density=density, refinement_iters=1)
    return r[0], r[1].locations, r[1].units, r[1], g.source_placement.locations, g.axes


def spec_refine_1d(loc, w, x, pk, wl, density, unit):
    axis = refine(x, pk, density)
    i = spec_of(A_ff1(loc, axis, unit, wl), w).argmax()
    return True, np.array([axis[i]]), (unit,), FarField1DSourcePlacement(x, unit), x, (x,)


def finder(*coords):
    return lambda sp: tuple(np.array(c) for c in coords)


def impl_refine_2d(loc: 'f[M,2]', w: 'c[M]', a: 'f[N]', e: 'f[P]', p: 'i in [0,N-1]', q: 'i in [0,P-1]', wl: 'f+', density: 'size>=1'):
    """sizes: M>=2, N>=2, P>=2
    fallback: M=2 N=3 P=2 density=2; M=2 N=2 P=2 density=2"""
    g = NearField2DSearchGrid(axes=(a, e))
    r = User(ArrayDesign(loc, 'x'), wl, g, peak_finder=finder([p], [q])).estimate(w, 1, refine_estimates=True, refinement_density=density, refinement_iters=1)
    return r[0], r[1].locations, r[1].units, g.source_placement.locations, g.axes


def spec_refine_2d(loc, w, a, e, p, q, wl, density):
    g = product(refine(a, p, density), refine(e, q, density))
    return True, g[spec_of(A_nf(loc, g, wl), w).argmax()][None, :], ('m', 'm'), product(a, e), (a, e)


class Table(FarField1DSearchGrid):
    """1D grid whose refinement around point c of level l is row c of an arbitrary table t[l]."""

    def __init__(self, axis, tables, log):
        FarField1DSearchGrid.__init__(self, unit='sin', axes=(axis,))
        self._tables = tables
        self._log = log

    def create_refined_grid_at(self, coord, density=10, span=1):
        self._log.append((coord[0], len(coord), density, span))
        return Table(self._tables[0][coord[0]], self._tables[1:], self._log)


class Table2(NearField2DSearchGrid):
    """2D counterpart of Table."""

    def __init__(self, ax, ay, tables, log):
        NearField2DSearchGrid.__init__(self, axes=(ax, ay))
        self._tables = tables
        self._log = log

    def create_refined_grid_at(self, coord, density=10, span=1):
        self._log.append((coord[0], coord[1], len(coord), density, span))
        (tx, ty) = self._tables[0]
        return Table2(tx[coord[0]], ty[coord[1]], self._tables[1:], self._log)


def impl_refine_iters(loc: 'f[M,1]', w: 'c[M]', x: 'f[N] in (-1,1)', t1: 'f[N,P] in (-1,1)', t2: 'f[P,Q] in (-1,1)', t3: 'f[Q,S] in (-1,1)', pk: 'i in [0,N-1]', wl: 'f+', iters: '{1,2,3}', density: 'size>=1'):
    """sizes: M>=2, N>=1, P>=1, Q>=1, S>=1
    fallback: M=2 N=3 P=2 Q=3 S=2"""
    log = []
    g = Table(x, [t1, t2, t3], log)
    r = User(ArrayDesign(loc, 'x'), wl, g, peak_finder=finder([pk])).estimate(w, 1, refine_estimates=True, refinement_density=density, refinement_iters=iters)
    return r[0], r[1].locations, r[1].units, r[1], log, g.source_placement.locations, g.axes


def spec_refine_iters(loc, w, x, t1, t2, t3, pk, wl, iters, density):
    i, log, axis = pk, [], x
    for t in (t1, t2, t3)[:iters]:
        log.append((i, 1, density, 1))
        axis = t[i]
        i = spec_of(A_ff1(loc, axis, 'sin', wl), w).argmax()
    return True, np.array([axis[i]]), ('sin',), FarField1DSourcePlacement(x, 'sin'), log, x, (x,)


def impl_refine_two(loc: 'f[M,1]', w: 'c[M]', x: 'f[N] in (-1,1)', t1: 'f[N,P] in (-1,1)', t2: 'f[P,Q] in (-1,1)', pk: 'i[L] in (0,N-1)', wl: 'f+', iters: '{1,2}', rs: '{True,False}'):
    """sizes: M>=2, N>=1, P>=1, Q>=1, L>=2
    fallback: M=2 N=3 P=2 Q=3 L=2"""
    g = Table(x, [t1, t2], [])
    r = User(ArrayDesign(loc, 'x'), wl, g, peak_finder=finder(pk)).estimate(w, 2, refine_estimates=True, refinement_density=4, refinement_iters=iters, return_spectrum=rs)
    return r[0], len(r), r[1].locations, g.source_placement.locations, r[-1] if rs else None


def spec_refine_two(loc, w, x, t1, t2, pk, wl, iters, rs):
    sp = spec_of(A_ff1(loc, x, 'sin', wl), w)
    b = best(sp, (pk,), 2)
    out = []
    for i in (b[0], b[1]):
        for t in (t1, t2)[:iters]:
            axis = t[i]
            i = spec_of(A_ff1(loc, axis, 'sin', wl), w).argmax()
        out.append(axis[i])
    return True, 3 if rs else 2, np.array(out), x, sp if rs else None


def impl_refine_three(loc: 'f[M,1]', w: 'c[M]', x: 'f[N] in (-1,1)', t1: 'f[N,P] in (-1,1)', t2: 'f[P,Q] in (-1,1)', t3: 'f[Q,S] in (-1,1)', pk: 'i[L] in (0,N-1)', wl: 'f+', iters: '{1,2,3}'):
    """sizes: M>=2, N>=1, P>=1, Q>=1, S>=1, L>=3
    fallback: M=2 N=4 P=2 Q=2 S=2 L=3"""
    g = Table(x, [t1, t2, t3], [])
    r = User(ArrayDesign(loc, 'x'), wl, g, peak_finder=finder(pk)).estimate(w, 3, refine_estimates=True, refinement_density=4, refinement_iters=iters)
    return r[0], len(r), r[1].locations


def spec_refine_three(loc, w, x, t1, t2, t3, pk, wl, iters):
    sp = spec_of(A_ff1(loc, x, 'sin', wl), w)
    b = best(sp, (pk,), 3)
    out = []
    for i in (b[0], b[1], b[2]):
        for t in (t1, t2, t3)[:iters]:
            axis = t[i]
            i = spec_of(A_ff1(loc, axis, 'sin', wl), w).argmax()
        out.append(axis[i])
    return True, 2, np.array(out)


def impl_refine_two_2d(loc: 'f[M,2]', w: 'c[M]', a: 'f[N]', e: 'f[P]', t1: 'f[N,Q]', u1: 'f[P,S]', t2: 'f[Q,X]', u2: 'f[S,Y]', p: 'i[L] in (0,N-1)', q: 'i[L] in (0,P-1)', wl: 'f+', iters: '{1,2}'):
    """sizes: M>=2, N>=1, P>=1, Q>=1, L>=2, S>=1, X>=1, Y>=1
    fallback: M=2 N=3 P=2 Q=3 S=2 X=2 Y=2 L=2; M=2 N=2 P=2 Q=2 S=3 X=2 Y=3 L=2; M=2 N=2 P=2 Q=2 S=2 X=2 Y=2 L=2"""
    log = []
    g = Table2(a, e, [(t1, u1), (t2, u2)], log)
    r = User(ArrayDesign(loc, 'x'), wl, g, peak_finder=finder(p, q)).estimate(w, 2, refine_estimates=True, refinement_density=4, refinement_iters=iters)
    return r[0], r[1].locations, g.source_placement.locations, len(log)


def spec_refine_two_2d(loc, w, a, e, t1, u1, t2, u2, p, q, wl, iters):
    sp = spec_of(A_nf(loc, product(a, e), wl), w).reshape((a.shape[0], e.shape[0]))
    b = best(sp, (p, q), 2)
    out = []
    for f in (b[0], b[1]):
        i, j = f // e.shape[0], f % e.shape[0]
        for t, u in ((t1, u1), (t2, u2))[:iters]:
            ax, ay = t[i], u[j]
            f = spec_of(A_nf(loc, product(ax, ay), wl), w).argmax()
            i, j = f // ay.shape[0], f % ay.shape[0]
        out.append(np.array([ax[i], ay[j]]))
    return True, np.stack(out), product(a, e), 2 * iters


def impl_refine_defaults(loc: 'f[M,1]', w: 'c[M]', x: 'f[N] in (-1,1)', t1: 'f[N,P] in (-1,1)', t2: 'f[P,Q] in (-1,1)', t3: 'f[Q,S] in (-1,1)', pk: 'i in [0,N-1]', wl: 'f+'):
    """sizes: M>=2, N>=1, P>=1, Q>=1, S>=1
    fallback: M=2 N=3 P=2 Q=3 S=2"""
    log = []
    s = User(ArrayDesign(loc, 'x'), wl, Table(x, [t1, t2, t3], log), peak_finder=finder([pk]))
    return s.estimate(w, 1, refine_estimates=True)[1].locations, [r[2] for r in log], s.estimate(w, 1)[1].locations, s.estimate(w, 1, refine_estimates=False)[1].locations, len(log)


def spec_refine_defaults(loc, w, x, t1, t2, t3, pk, wl):
    i = pk
    for t in (t1, t2, t3):
        axis = t[i]
        i = spec_of(A_ff1(loc, axis, 'sin', wl), w).argmax()
    return np.array([axis[i]]), [10, 10, 10], x[pk:pk + 1], x[pk:pk + 1], 3


def impl_independent(loc: 'f[M,1]', w: 'c[M]', x: 'f[N] in (-1,1)', pk: 'i[L] in (0,N-1)', wl: 'f+'):
    """sizes: M>=2, N>=1, L>=1
    fallback: M=2 N=4 L=1"""
    g = FarField1DSearchGrid(axes=(x,))
    e = User(ArrayDesign(loc, 'x'), wl, g, peak_finder=lambda sp: (pk,))
    r = e.estimate(w, 1)
    r[1].locations[0] = 0.25
    return g.source_placement.locations, g.axes, probe.shares(r[1].locations, x)


def spec_independent(loc, w, x, pk, wl):
    return x, (x,), False

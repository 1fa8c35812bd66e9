import numpy as np
from doatools.estimation.grid import FarField1DSearchGrid, FarField2DSearchGrid, NearField2DSearchGrid, SearchGrid
from doatools.model.sources import FarField1DSourcePlacement, FarField2DSourcePlacement, NearField2DSourcePlacement
from specs.lib import bound
import probe


def span(lo, hi, n):
    """n half-open equally spaced points."""
    return lo + np.arange(n) * ((hi - lo) / n)


def product(a, e):
    return np.stack((np.repeat(a, e.shape[0]), np.tile(e, a.shape[0])), 1)


def show(g):
    return g.shape, g.size, g.ndim, g.axes, g.units, g.axis_names


# --- one dimension --------------------------------------------------------------

def impl_1d(n: 'size>=1', lo: 'f in (-1,1)', hi: 'f in (-1,1)', unit: "{'rad','deg','sin'}"):
    g = FarField1DSearchGrid(lo, hi, n, unit)
    return show(g), g.source_placement.locations, g.source_placement.units, g.source_placement


def spec_1d(n, lo, hi, unit):
    x = span(lo, hi, n)
    return ((n,), n, 1, (x,), (unit,), ('DOA',)), x, (unit,), FarField1DSourcePlacement(np.zeros(1))


def impl_1d_defaults(n: 'size>=1', unit: "{'rad','deg','sin'}", lo: 'f in (-1,0)', hi: 'f in (0,1)'):
    return [FarField1DSearchGrid(size=n, unit=unit).axes[0], FarField1DSearchGrid(start=lo, size=n, unit=unit).axes[0], FarField1DSearchGrid(stop=hi, size=n, unit=unit).axes[0]]


def spec_1d_defaults(n, unit, lo, hi):
    b = bound(unit)
    return [span(-b, b, n), span(lo, b, n), span(-b, hi, n)]


def impl_1d_zero_bounds(n: 'size>=1', unit: "{'rad','deg','sin'}", lo: 'f in (-1,0)', hi: 'f in (0,1)'):
    return FarField1DSearchGrid(0.0, hi, n, unit).axes[0], FarField1DSearchGrid(lo, 0.0, n, unit).axes[0]


def spec_1d_zero_bounds(n, unit, lo, hi):
    return span(0.0, hi, n), span(lo, 0.0, n)


def impl_1d_all_defaults():
    g = FarField1DSearchGrid()
    return show(g), g.source_placement.locations


def spec_1d_all_defaults():
    x = span(-np.pi / 2, np.pi / 2, 180)
    return ((180,), 180, 1, (x,), ('rad',), ('DOA',)), x


def impl_1d_ranges(a: 'f in (-1,1)', b: 'f in (-1,1)', c: 'f in (-1,1)', d: 'f in (-1,1)', e: 'f in (-1,1)', h: 'f in (-1,1)', n: 'size>=1', m: 'size>=1', p: 'size>=1', unit: "{'rad','deg','sin'}", count: '{1,2,3}'):
    g = FarField1DSearchGrid([a, c, e][:count], [b, d, h][:count], [n, m, p][:count], unit)
    return show(g)


def spec_1d_ranges(a, b, c, d, e, h, n, m, p, unit, count):
    x = np.concatenate([span(a, b, n), span(c, d, m), span(e, h, p)][:count])
    k = x.shape[0]
    return (k,), k, 1, (x,), (unit,), ('DOA',)


def impl_1d_axes(x: 'f[N] in (-1,1)', unit: "{'rad','deg','sin'}"):
    """sizes: N>=1"""
    g = FarField1DSearchGrid(unit=unit, axes=(x,))
    return show(g), g.source_placement.locations, g.source_placement.units


def spec_1d_axes(x, unit):
    n = x.shape[0]
    return ((n,), n, 1, (x,), (unit,), ('DOA',)), x, (unit,)


# --- two dimensions ---------------------------------------------------------------

def impl_2d(n: 'size>=1', m: 'size>=1', a: 'f in (-1,1)', b: 'f in (-1,1)', c: 'f in (-1,1)', d: 'f in (-1,1)', kind: "{'rad','deg','m'}"):
    g = NearField2DSearchGrid((a, c), (b, d), (n, m)) if kind == 'm' else FarField2DSearchGrid((a, c), (b, d), (n, m), kind)
    return show(g), g


def spec_2d(n, m, a, b, c, d, kind):
    x, y = span(a, b, n), span(c, d, m)
    g = NearField2DSearchGrid(axes=(x, y)) if kind == 'm' else FarField2DSearchGrid(axes=(x, y))
    return ((n, m), n * m, 2, (x, y), (kind, kind), ('x', 'y') if kind == 'm' else ('Azimuth', 'Elevation')), g


def impl_2d_scalar_size(n: 'size>=1', a: 'f in (-1,1)', b: 'f in (-1,1)', c: 'f in (-1,1)', d: 'f in (-1,1)', kind: "{'rad','deg','m'}"):
    g = NearField2DSearchGrid((a, c), (b, d), n) if kind == 'm' else FarField2DSearchGrid((a, c), (b, d), n, kind)
    return g.shape, g.axes


def spec_2d_scalar_size(n, a, b, c, d, kind):
    return (n, n), (span(a, b, n), span(c, d, n))


def impl_2d_defaults(n: 'size>=1', m: 'size>=1', unit: "{'rad','deg'}", a: 'f in (-1,0)', b: 'f in (-1,1)'):
    return FarField2DSearchGrid(size=(n, m), unit=unit).axes, FarField2DSearchGrid(start=(a, b), size=(n, m), unit=unit).axes, FarField2DSearchGrid(stop=(a, b), size=(n, m), unit=unit).axes


def spec_2d_defaults(n, m, unit, a, b):
    h = bound(unit)
    return (span(-2 * h, 2 * h, n), span(0.0, h, m)), (span(a, 2 * h, n), span(b, h, m)), (span(-2 * h, a, n), span(0.0, b, m))


def impl_2d_all_defaults():
    g = FarField2DSearchGrid()
    return show(g)


def spec_2d_all_defaults():
    return (360, 90), 32400, 2, (span(-np.pi, np.pi, 360), span(0.0, np.pi / 2, 90)), ('rad', 'rad'), ('Azimuth', 'Elevation')


def impl_2d_axes(x: 'f[N] in (-1,1)', y: 'f[P] in (-1,1)', kind: "{'rad','deg','m'}", i: 'i in [0,N-1]', j: 'i in [0,P-1]'):
    """sizes: N>=1, P>=1"""
    g = NearField2DSearchGrid(axes=(x, y)) if kind == 'm' else FarField2DSearchGrid(unit=kind, axes=(x, y))
    s = g.source_placement
    flat = np.ravel_multi_index((np.array([i]), np.array([j])), g.shape)
    return show(g), s.locations, s.units, s[flat].locations, s[i * y.shape[0] + j]


def spec_2d_axes(x, y, kind, i, j):
    n, p = x.shape[0], y.shape[0]
    z = np.array([x[i], y[j]])
    return ((n, p), n * p, 2, (x, y), (kind, kind), ('x', 'y') if kind == 'm' else ('Azimuth', 'Elevation')), product(x, y), (kind, kind), z[None, :], z


def impl_cached_placement(x: 'f[N] in (-1,1)', y: 'f[P] in (-1,1)'):
    """sizes: N>=1, P>=1"""
    g, h = FarField1DSearchGrid(axes=(x,)), FarField2DSearchGrid(axes=(x, y))
    return g.source_placement.locations, g.source_placement.locations, h.source_placement.locations, h.source_placement.locations


def spec_cached_placement(x, y):
    return x, x, product(x, y), product(x, y)


# --- refinement ---------------------------------------------------------------------

def refined(x, i, density, w):
    lo, hi = max(0, i - w), min(x.shape[0] - 1, i + w)
    n = (hi - lo) * density
    if n == 0:
        return np.array([x[lo]])
    return x[lo] + np.arange(n + 1) * ((x[hi] - x[lo]) / n)


def impl_refine_1d(x: 'f[N]', i: 'i in [0,N-1]', density: 'size>=1', w: 'size>=1', unit: "{'rad','deg','sin'}"):
    """sizes: N>=1"""
    g = FarField1DSearchGrid(unit=unit, axes=(x,))
    h = g.create_refined_grid_at((i,), density=density, span=w)
    return h.axes, h.shape, h.units, h, g.axes, g.shape, h.axis_names


def spec_refine_1d(x, i, density, w, unit):
    r = refined(x, i, density, w)
    n = x.shape[0]
    return (r,), (r.shape[0],), (unit,), FarField1DSearchGrid(), (x,), (n,), ('DOA',)


def impl_refine_2d(x: 'f[N]', y: 'f[P]', i: 'i in [0,N-1]', j: 'i in [0,P-1]', density: 'size>=1', w: 'size>=1', kind: "{'rad','deg','m'}"):
    """sizes: N>=1, P>=1"""
    g = NearField2DSearchGrid(axes=(x, y)) if kind == 'm' else FarField2DSearchGrid(unit=kind, axes=(x, y))
    h = g.create_refined_grid_at((i, j), density=density, span=w)
    return h.axes, h.shape, h.units, h, g.axes, h.axis_names


def spec_refine_2d(x, y, i, j, density, w, kind):
    g = NearField2DSearchGrid(axes=(x, y)) if kind == 'm' else FarField2DSearchGrid(unit=kind, axes=(x, y))
    r, s = refined(x, i, density, w), refined(y, j, density, w)
    return (r, s), (r.shape[0], s.shape[0]), (kind, kind), g, (x, y), ('x', 'y') if kind == 'm' else ('Azimuth', 'Elevation')


def impl_refine_defaults(x: 'f[N]', y: 'f[P]', i: 'i in [0,N-1]', j: 'i in [0,P-1]'):
    """sizes: N>=2, P>=2"""
    g, h = FarField1DSearchGrid(axes=(x,)), NearField2DSearchGrid(axes=(x, y))
    f = FarField2DSearchGrid(unit='deg', axes=(x, y))
    return g.create_refined_grid_at((i,)).axes, h.create_refined_grid_at((i, j)).axes, f.create_refined_grid_at((i, j)).axes, g.create_refined_grids_at(np.array([i]))[0].axes


def spec_refine_defaults(x, y, i, j):
    r, s = refined(x, i, 10, 1), refined(y, j, 10, 1)
    return (r,), (r, s), (r, s), (r,)


def impl_refine_many(x: 'f[N]', y: 'f[P]', a: 'i in [0,N-1]', b: 'i in [0,N-1]', c: 'i in [0,P-1]', d: 'i in [0,P-1]', density: 'size>=1'):
    """sizes: N>=2, P>=2"""
    gs = FarField1DSearchGrid(axes=(x,)).create_refined_grids_at(np.array([a, b]), density=density, span=2)
    hs = NearField2DSearchGrid(axes=(x, y)).create_refined_grids_at([a, b], [c, d], density=density)
    return len(gs), [g.axes for g in gs], len(hs), [h.axes for h in hs]


def spec_refine_many(x, y, a, b, c, d, density):
    return 2, [(refined(x, i, density, 2),) for i in (a, b)], 2, [(refined(x, i, density, 1), refined(y, j, density, 1)) for i, j in ((a, c), (b, d))]


def impl_refine_again(x: 'f[N]', i: 'i in [0,N-1]', density: 'size>=1'):
    """sizes: N>=2
    assume: i>=1; i<=N-2"""
    g = FarField1DSearchGrid(unit='deg', axes=(x,)).create_refined_grid_at((i,), density=density)
    h = g.create_refined_grid_at((density,), density=3)
    return g.axes, h.axes, h.units


def spec_refine_again(x, i, density):
    r = refined(x, i, density, 1)
    return (r,), (refined(r, density, 3, 1),), ('deg',)


def impl_refine_guards(x: 'f[N]', y: 'f[P]', i: 'i in [0,N-1]', j: 'i in [0,P-1]', density: '{-1,0,1,2}', w: '{-1,0,1,2}', n: '{0,1,2,3}', kind: "{'f1','f2','nf'}"):
    """sizes: N>=1, P>=1"""
    g = {'f1': FarField1DSearchGrid(axes=(x,)), 'f2': FarField2DSearchGrid(axes=(x, y)), 'nf': NearField2DSearchGrid(axes=(x, y))}[kind]
    return g.create_refined_grid_at((i, j, 0)[:n], density=density, span=w).ndim


def spec_refine_guards(x, y, i, j, density, w, n, kind):
    if density < 1 or w < 1 or n != (1 if kind == 'f1' else 2):
        raise ValueError('refine')
    return n


def impl_axes_must_be_tuples(x: 'f[N] in (-1,1)'):
    """sizes: N>=1"""
    return [probe.catch(lambda: FarField1DSearchGrid(axes=a)) for a in ([x], x)]


def spec_axes_must_be_tuples(x):
    return ['ValueError', 'ValueError']


class Custom(SearchGrid):
    """A grid of a type of its own, of any number of axes."""

    def _create_source_placement(self):
        return None

    def create_refined_grid_at(self, coord, density=10, span=1):
        return None


def impl_custom(x: 'f[N]', y: 'f[P]', z: 'f[Q]', which: "{'ok','axes','names','units'}", one: '{True,False}'):
    """sizes: N>=1, P>=1, Q>=1"""
    a = (x,) if one else (x, y, z)
    n = ('A',) if one else ('A', 'B', 'C')
    u = ('m',) if one else ('m', 'rad', 's')
    if which == 'axes':
        a = list(a)
    if which == 'names':
        n = 'A' if one else list(n)
    if which == 'units':
        u = 'm' if one else list(u)
    g = Custom(a, n, u)
    return g.shape, g.ndim, g.size, g.axes, g.axis_names, g.units


def spec_custom(x, y, z, which, one):
    if which != 'ok':
        raise ValueError('tuple')
    if one:
        return x.shape, 1, x.shape[0], (x,), ('A',), ('m',)
    return (x.shape[0], y.shape[0], z.shape[0]), 3, x.shape[0] * y.shape[0] * z.shape[0], (x, y, z), ('A', 'B', 'C'), ('m', 'rad', 's')

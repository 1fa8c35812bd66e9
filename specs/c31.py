"""Plots: the given data on the given axes, and nothing on any other axes."""
import numpy as np
from doatools.model.arrays import ArrayDesign, UniformLinearArray, NestedArray, GridBasedArrayDesign
from doatools.model.perturbations import LocationErrors, GainErrors
from doatools.model.sources import FarField1DSourcePlacement, FarField2DSourcePlacement, NearField2DSourcePlacement
from doatools.estimation.grid import FarField1DSearchGrid, FarField2DSearchGrid, NearField2DSearchGrid
from doatools.plotting.plot_array import plot_array, plot_coarray
from doatools.plotting.plot_spectrum import plot_spectrum, plot_spectrum_1d, plot_spectrum_2d
import probe

ARTISTS = ('plot', 'semilogy', 'semilogx', 'loglog', 'stem', 'scatter', 'imshow', 'pcolormesh', 'pcolor', 'contour', 'contourf', 'matshow', 'bar', 'fill_between', 'errorbar', 'step', 'vlines', 'hlines')
# pyplot functions that do not touch the current figure or axes
STATELESS = ('setp', 'getp', 'get_cmap', 'Normalize', 'LogNorm', 'get', 'colormaps')


class Handle:
    """What a drawing method returns; styling it has no effect here."""

    def __init__(self, number):
        self.number = number

    def __getattr__(self, name):
        return Handle(self.number)

    def __call__(self, *a, **k):
        return Handle(self.number)

    def __getitem__(self, key):
        return Handle(self.number)

    def __iter__(self):
        return iter([Handle(self.number)])


class Method:
    def __init__(self, log, name):
        self.log = log
        self.name = name

    def __call__(self, *a, **k):
        self.log.append((self.name, a, k))
        return Handle(len([e for e in self.log if e[0] in ARTISTS]) - 1)

    def __getattr__(self, name):
        return Method(self.log, self.name + '.' + name)


class Recorder:
    """Axes (or figure) that only records what is asked of it."""

    def __init__(self, log, figure=None):
        self.log = log
        self.figure = figure

    def __getattr__(self, name):
        return Method(self.log, name)

    def get_figure(self):
        return self.figure

    def get_xlim(self):
        return 0.0, 3.0

    def get_ylim(self):
        return 0.0, 2.0

    def get_zlim(self):
        return -1.0, 4.0


def new_axes():
    return Recorder([], Recorder([]))


def data(entry):
    return [v for v in entry[1] if not isinstance(v, str)]


def drawn(ax):
    """Coordinates of every line, stem and scatter artist, in drawing order."""
    return [[np.ravel(v) for v in data(e)[:3]] for e in ax.log if e[0] in ARTISTS and e[0] != 'imshow']


def named(ax):
    return [e[2].get('label', '') for e in ax.log if e[0] in ARTISTS and e[0] != 'imshow']


def logarithmic(ax):
    return len([e for e in ax.log if e[0] in ('semilogy', 'loglog') or (e[0] == 'set_yscale' and e[1][0] == 'log')]) > 0


def axis_label(ax, which):
    out = [e[1][0] for e in ax.log if e[0] == 'set_%slabel' % which] + [e[2][which + 'label'] for e in ax.log if e[0] == 'set' and (which + 'label') in e[2]]
    return out[-1] if len(out) > 0 else ''


def pyplot():
    """Pyplot functions called that depend on or change what is current."""
    return [c[0] for c in probe.calls() if c[0].startswith('plt.') and c[0].split('.')[-1] not in STATELESS]


def normal(s):
    m = np.max(s)
    return s / m if m > 0 else s


def grid1(x, unit):
    return FarField1DSearchGrid(unit=unit, axes=(x,))


# --- one-dimensional spectra -----------------------------------------------------

def collection(form, s, t):
    return s if form == 'array' else ([s, t] if form == 'list' else ((t, s) if form == 'tuple' else {'first': s, 'second': t}))


def impl_lines(x: 'f[L] in (-1,1)', s: 'f[L]', t: 'f[L]', form: "{'array','list','tuple','dict'}", log: '{True,False}', discrete: '{True,False}', unit: "{'rad','deg','sin'}"):
    """sizes: L>=1"""
    ax = new_axes()
    r = plot_spectrum_1d(collection(form, s, t), grid1(x, unit), ax, use_log_scale=log, discrete=discrete)
    label = axis_label(ax, 'x')
    return drawn(ax), [h.number for h in r], logarithmic(ax), 'DOA' in label and unit in label, pyplot(), ax.figure.log


def spec_lines(x, s, t, form, log, discrete, unit):
    a, b = [x, normal(s)], [x, normal(t)]
    out = [a] if form == 'array' else ([b, a] if form == 'tuple' else [a, b])
    return out, list(range(len(out))), log, True, [], []


def impl_many_lines(x: 'f[L] in (-1,1)', s: 'f+[L]', t: 'f+[L]', n: '{3,5}', dictionary: '{True,False}', log: '{True,False}', discrete: '{True,False}'):
    """sizes: L>=1"""
    ax = new_axes()
    v = [(i + 1) * s + i * i * t for i in range(n)]
    r = plot_spectrum_1d({'s%d' % i: v[i] for i in range(n)} if dictionary else v, grid1(x, 'rad'), ax, use_log_scale=log, discrete=discrete)
    return drawn(ax), [h.number for h in r], named(ax)


def spec_many_lines(x, s, t, n, dictionary, log, discrete):
    return [[x, normal((i + 1) * s + i * i * t)] for i in range(n)], list(range(n)), [('s%d' % i if dictionary else '') for i in range(n)]


def impl_labels(x: 'f[L] in (-1,1)', s: 'f[L]', t: 'f[L]', discrete: '{True,False}', log: '{True,False}'):
    """sizes: L>=1"""
    ax = new_axes()
    plot_spectrum_1d({'MUSIC': s, 'MVDR': t}, grid1(x, 'rad'), ax, use_log_scale=log, discrete=discrete)
    return named(ax), 'legend' in [e[0] for e in ax.log]


def spec_labels(x, s, t, discrete, log):
    return ['MUSIC', 'MVDR'], True


def impl_sources(x: 'f[L] in (-1,1)', s: 'f[L]', est: 'f[K] in (-1,1)', true: 'f[P] in (-1,1)', which: "{'est','true','both'}", log: '{True,False}', discrete: '{True,False}', unit: "{'rad','deg','sin'}"):
    """sizes: L>=1, K>=1, P>=1"""
    ax = new_axes()
    e = None if which == 'true' else FarField1DSourcePlacement(est, unit)
    g = None if which == 'est' else FarField1DSourcePlacement(true, unit)
    r = plot_spectrum_1d(s, grid1(x, unit), ax, e, g, log, discrete)
    return drawn(ax), [h.number for h in r], logarithmic(ax), pyplot()


def spec_sources(x, s, est, true, which, log, discrete, unit):
    a, b = [est, np.ones(est.shape)], [true, np.ones(true.shape)]
    out = [[x, normal(s)]] + ([a] if which == 'est' else ([b] if which == 'true' else [a, b]))
    return out, list(range(len(out))), log, []


def impl_units_1d(x: 'f[L] in (-1,1)', s: 'f[L]', est: 'f[K] in (-1,1)', unit: "{'rad','deg','sin'}", other: "{'rad','deg','sin'}", as_truth: '{True,False}', discrete: '{True,False}'):
    """sizes: L>=1, K>=1"""
    p = FarField1DSourcePlacement(est, other)
    return probe.catch(lambda: plot_spectrum_1d(s, grid1(x, unit), new_axes(), None if as_truth else p, p if as_truth else None, discrete=discrete))


def spec_units_1d(x, s, est, unit, other, as_truth, discrete):
    return None if unit == other else 'ValueError'


def impl_shapes_1d(x: 'f[L] in (-1,1)', s: 'f[N]', t: 'f[L]', u: 'f[L,N]', form: "{'array','list','tuple','dict','last','matrix','empty','text'}"):
    """sizes: L>=1, N>=1"""
    sp = {'array': s, 'list': [s, t], 'tuple': (s, t), 'dict': {'a': t, 'b': s}, 'last': [t, t, s], 'matrix': u, 'empty': [], 'text': 'music'}[form]
    return probe.catch(lambda: plot_spectrum_1d(sp, grid1(x, 'rad'), new_axes()))


def spec_shapes_1d(x, s, t, u, form):
    return None if form not in ('matrix', 'empty', 'text') and x.shape[0] == s.shape[0] else 'ValueError'


# --- two-dimensional spectra -------------------------------------------------------

def image(ax):
    """Data (first row at the bottom) and data limits of the image."""
    e = [e for e in ax.log if e[0] == 'imshow'][0]
    d = e[1][0]
    return d if e[2].get('origin') == 'lower' else d[::-1], e[2]['extent']


def grid2(kind, x, y):
    return NearField2DSearchGrid(axes=(x, y)) if kind == 'nf' else FarField2DSearchGrid(unit=kind, axes=(x, y))


def spot(kind, p):
    return NearField2DSourcePlacement(p) if kind == 'nf' else FarField2DSourcePlacement(p, kind)


NAMES = {'nf': ('x', 'y'), 'rad': ('Azimuth', 'Elevation'), 'deg': ('Azimuth', 'Elevation')}


def impl_image(x: 'f[L] in (0,1)', y: 'f[P] in (0,1)', s: 'f[L,P]', kind: "{'rad','deg','nf'}", swap: '{True,False}', log: '{True,False}'):
    """sizes: L>=1, P>=1"""
    ax = new_axes()
    g = grid2(kind, x, y)
    plot_spectrum_2d(s, g, ax, use_log_scale=log, swap_axes=swap)
    d, e = image(ax)
    k = 1 if swap else 0
    lx, ly = axis_label(ax, 'x'), axis_label(ax, 'y')
    return d, e, g.axis_names[k] in lx, g.axis_names[1 - k] in ly, g.units[k] in lx, pyplot()


def spec_image(x, y, s, kind, swap, log):
    a, b = (y, x) if swap else (x, y)
    return s if swap else s.T, (np.min(a), np.max(a), np.min(b), np.max(b)), True, True, True, []


def impl_colorbar(x: 'f[L] in (0,1)', y: 'f[P] in (0,1)', s: 'f[L,P]', log: '{True,False}'):
    """sizes: L>=1, P>=1"""
    # the colour bar belongs to the image and takes its room from the given axes
    ax = new_axes()
    plot_spectrum_2d(s, grid2('rad', x, y), ax, use_log_scale=log)
    return [(e[1][0].number, e[2].get('ax') is ax) for e in ax.figure.log if e[0] == 'colorbar'], pyplot(), [e[0] for e in ax.log if e[0] in ARTISTS]


def spec_colorbar(x, y, s, log):
    return [(0, True)], [], ['imshow']


def impl_sources_2d(x: 'f[L] in (0,1)', y: 'f[P] in (0,1)', s: 'f[L,P]', est: 'f[K,2] in (0,1)', true: 'f[Q,2] in (0,1)', kind: "{'rad','deg','nf'}", which: "{'est','true','both'}", swap: '{True,False}'):
    """sizes: L>=1, P>=1, K>=1, Q>=1"""
    ax = new_axes()
    e = None if which == 'true' else spot(kind, est)
    g = None if which == 'est' else spot(kind, true)
    r = plot_spectrum_2d(s, grid2(kind, x, y), ax, e, g, swap_axes=swap)
    return drawn(ax), [h.number for h in r], pyplot()


def spec_sources_2d(x, y, s, est, true, kind, which, swap):
    i, j = (1, 0) if swap else (0, 1)
    a, b = [est[:, i], est[:, j]], [true[:, i], true[:, j]]
    out = [a] if which == 'est' else ([b] if which == 'true' else [a, b])
    return out, list(range(1 + len(out))), []


def impl_units_2d(x: 'f[L] in (0,1)', y: 'f[P] in (0,1)', s: 'f[L,P]', est: 'f[K,2] in (0,1)', kind: "{'rad','deg','nf'}", other: "{'rad','deg','nf'}", as_truth: '{True,False}', swap: '{True,False}'):
    """sizes: L>=1, P>=1, K>=1"""
    p = spot(other, est)
    return probe.catch(lambda: plot_spectrum_2d(s, grid2(kind, x, y), new_axes(), None if as_truth else p, p if as_truth else None, swap_axes=swap))


def spec_units_2d(x, y, s, est, kind, other, as_truth, swap):
    return None if kind == other else 'ValueError'


def impl_shapes_2d(x: 'f[L] in (0,1)', y: 'f[P] in (0,1)', s: 'f[N,Q]', v: 'f[L]', flat: '{True,False}', swap: '{True,False}'):
    """sizes: L>=1, P>=1, N>=1, Q>=1"""
    return probe.catch(lambda: plot_spectrum_2d(v if flat else s, grid2('rad', x, y), new_axes(), swap_axes=swap))


def spec_shapes_2d(x, y, s, v, flat, swap):
    return None if not flat and s.shape[0] == x.shape[0] and s.shape[1] == y.shape[0] else 'ValueError'


def impl_defaults(x: 'f[L] in (0,1)', y: 'f[P] in (0,1)', s: 'f[L]', u: 'f[L,P]', direct: '{True,False}', two: '{True,False}'):
    """sizes: L>=1, P>=1"""
    # without options: linear scale, line plots, first coordinate on the horizontal axis, no legend
    ax = new_axes()
    g = grid2('deg', x, y) if two else grid1(x, 'rad')
    if direct:
        (plot_spectrum_2d if two else plot_spectrum_1d)(u if two else s, g, ax)
    else:
        plot_spectrum(u if two else s, g, ax)
    return [e[0] for e in ax.log if e[0] in ARTISTS], logarithmic(ax), colour_scale(ax), image(ax) if two else drawn(ax), legend(ax), pyplot()


def spec_defaults(x, y, s, u, direct, two):
    d = (u.T, (np.min(x), np.max(x), np.min(y), np.max(y))) if two else [[x, normal(s)]]
    return ['imshow'] if two else ['plot'], False, False, d, False, []


def colour_scale(ax):
    """Whether a normalization of the colours was asked for."""
    return len([e for e in ax.log if e[0] == 'imshow' and e[2].get('norm') is not None]) > 0


def legend(ax):
    return 'legend' in [e[0] for e in ax.log]


def impl_options_2d(x: 'f[L] in (0,1)', y: 'f[P] in (0,1)', u: 'f[L,P]', est: 'f[K,2] in (0,1)', which: "{'est','true','both'}", log: '{True,False}', through: '{True,False}'):
    """sizes: L>=1, P>=1, K>=1"""
    ax = new_axes()
    p = FarField2DSourcePlacement(est)
    e, t = None if which == 'true' else p, None if which == 'est' else p
    if through:
        plot_spectrum(u, grid2('rad', x, y), ax, estimates=e, ground_truth=t, use_log_scale=log, color_map='gray')
    else:
        plot_spectrum_2d(u, grid2('rad', x, y), ax, e, t, log, False, 'gray')
    return colour_scale(ax), [e[2].get('cmap') for e in ax.log if e[0] == 'imshow'], named(ax), legend(ax)


def spec_options_2d(x, y, u, est, which, log, through):
    return log, ['gray'], {'est': ['Estimates'], 'true': ['Ground truth'], 'both': ['Estimates', 'Ground truth']}[which], True


def impl_kinds_1d(x: 'f[L] in (0,1)', s: 'f[L]', t: 'f[L]', est: 'f[K] in (0,1)', which: "{'none','est','true','both'}", log: '{True,False}', discrete: '{True,False}', through: '{True,False}'):
    """sizes: L>=1, K>=1"""
    ax = new_axes()
    p = FarField1DSourcePlacement(est)
    e, g = p if which in ('est', 'both') else None, p if which in ('true', 'both') else None
    if through:
        plot_spectrum([s, t], grid1(x, 'rad'), ax, None, e, g, log, discrete=discrete)
    else:
        plot_spectrum_1d([s, t], grid1(x, 'rad'), ax, e, g, log, discrete)
    return [e[0] == 'stem' for e in ax.log if e[0] in ARTISTS], [n for n in named(ax) if n != ''], legend(ax), logarithmic(ax)


def spec_kinds_1d(x, s, t, est, which, log, discrete, through):
    n = {'none': [], 'est': ['Estimates'], 'true': ['Ground truth'], 'both': ['Estimates', 'Ground truth']}[which]
    return [discrete, discrete] + [True] * len(n), n, len(n) > 0, log


# --- dispatch and new figures --------------------------------------------------------

def impl_dispatch(x: 'f[L] in (0,1)', y: 'f[P] in (0,1)', s: 'f[L]', u: 'f[L,P]', est: 'f[K,2] in (0,1)', two: '{True,False}', log: '{True,False}', option: '{True,False}', truth: '{True,False}'):
    """sizes: L>=1, P>=1, K>=1"""
    ax = new_axes()
    g = grid2('rad', x, y) if two else grid1(x, 'rad')
    p = FarField2DSourcePlacement(est) if two else FarField1DSourcePlacement(est[:, 0])
    kw = {'ground_truth': p} if truth else {'estimates': p}
    kw['swap_axes' if two else 'discrete'] = option
    a, r = plot_spectrum(u if two else s, g, ax, use_log_scale=log, **kw)
    return a is ax, len(r), image(ax) if two else logarithmic(ax), drawn(ax), pyplot()


def spec_dispatch(x, y, s, u, est, two, log, option, truth):
    if two:
        a, b = (y, x) if option else (x, y)
        return True, 2, (u if option else u.T, (np.min(a), np.max(a), np.min(b), np.max(b))), [[est[:, 1], est[:, 0]] if option else [est[:, 0], est[:, 1]]], []
    return True, 2, log, [[x, normal(s)], [est[:, 0], np.ones(est.shape[0])]], []


def own(calls):
    """Calls other than the creation and display of the figure."""
    return [c for c in calls if c[0].split('.')[-1] in ARTISTS]


def shown(calls):
    n = [c[0] for c in calls]
    d = [i for i in range(len(n)) if n[i].split('.')[-1] in ARTISTS]
    return n.count('plt.show'), n[-1] == 'plt.show', len(d) > 0 and n[0] in ('plt.figure', 'plt.subplots')


def impl_new_figure(x: 'f[L] in (0,1)', y: 'f[P] in (0,1)', s: 'f[L]', u: 'f[L,P]', two: '{True,False}', w: 'f+', h: 'f+'):
    """sizes: L>=1, P>=1"""
    a, r = plot_spectrum(u if two else s, grid2('nf', x, y) if two else grid1(x, 'rad'), figsize=(w, h))
    c = [e for e in probe.calls() if e[0].startswith('plt.')]
    return shown(c), c[0][2]['figsize'], [data(e)[:2] if not two else data(e)[:1] for e in own(c)], len(r)


def spec_new_figure(x, y, s, u, two, w, h):
    return (1, True, True), (w, h), [[u.T]] if two else [[x, normal(s)]], 1


# --- arrays ------------------------------------------------------------------------------

def impl_array(loc: 'f[M,D]', err: 'f[M,E]', perturbed: '{True,False}', show: '{True,False}'):
    """sizes: M>=1, D=1|2|3, E=1|2|3"""
    ax = new_axes()
    a = ArrayDesign(loc, 'a', [LocationErrors(err)] if perturbed else [])
    r = plot_array(a, ax, show)
    return r is ax, drawn(ax), len(probe.warnings()) > 0, pyplot()


def points(x):
    d = x.shape[1]
    return [x[:, 0], np.zeros(x.shape[0])] if d == 1 else [x[:, i] for i in range(d)]


def spec_array(loc, err, perturbed, show):
    out = [points(loc)]
    if perturbed and show:
        out = out + [points(ArrayDesign(loc, 'b', [LocationErrors(err)]).actual_element_locations)]
    return True, out, show and not perturbed, []


def impl_array_other(loc: 'f[M,D]', g: 'f[M]', err: 'f[M,D]', known: '{True,False}', both: '{True,False}'):
    """sizes: M>=1, D=1|2|3"""
    # only location errors move elements
    ax = new_axes()
    plot_array(ArrayDesign(loc, 'a', [GainErrors(g, known)] + ([LocationErrors(err, known)] if both else [])), ax, True)
    return drawn(ax), len(probe.warnings()) > 0


def spec_array_other(loc, g, err, known, both):
    return [points(loc)] + ([points(loc + err)] if both else []), not both


class Solid(Recorder):
    """Three-dimensional axes whose view was fitted to what was drawn."""

    def __init__(self, log, low, high):
        self.log = log
        self.figure = Recorder([])
        self.low = low
        self.high = high

    def get_xlim(self):
        return self.low[0], self.high[0]

    def get_ylim(self):
        return self.low[1], self.high[1]

    def get_zlim(self):
        return self.low[2], self.high[2]

    get_xlim3d, get_ylim3d, get_zlim3d = get_xlim, get_ylim, get_zlim

    def get_w_lims(self):
        return self.low[0], self.high[0], self.low[1], self.high[1], self.low[2], self.high[2]


def view_limits(ax):
    """Limits of the three axes in the end."""
    out = [[ax.low[i], ax.high[i]] for i in range(3)]
    for name, a, k in ax.log:
        for i in range(3):
            x = 'xyz'[i]
            v = None
            if name == 'auto_scale_xyz':
                v = a[i]
            elif name in ('set_%slim' % x, 'set_%slim3d' % x):
                v = a if len(a) == 2 else a[0]
            elif name == 'set' and (x + 'lim') in k:
                v = k[x + 'lim']
            if v is not None:
                out[i] = [np.min(v), np.max(v)]
    return out


def impl_visible(loc: 'f[M,3]', low: 'f[3]', width: 'f+[3]', err: 'f[M,3]', show: '{True,False}'):
    """sizes: M>=1"""
    # adjusting the view of a three-dimensional array must not move the elements out of it
    ax = Solid([], low, low + width)
    plot_array(ArrayDesign(loc, 'a', [LocationErrors(err)]), ax, show)
    v = view_limits(ax)
    return [bool(v[i][0] <= low[i]) for i in range(3)], [bool(v[i][1] >= low[i] + width[i]) for i in range(3)]


def spec_visible(loc, low, width, err, show):
    return [True] * 3, [True] * 3


def impl_array_figure(loc: 'f[M,D]', err: 'f[M,E]', show: '{True,False}'):
    """sizes: M>=1, D=1|2, E=1|2"""
    plot_array(ArrayDesign(loc, 'a', [LocationErrors(err)]), None, show)
    c = [e for e in probe.calls() if e[0].startswith('plt.')]
    return shown(c), [data(e) for e in own(c)], len([e for e in c if e[2].get('projection') == '3d'])


def spec_array_figure(loc, err, show):
    return (1, True, True), [points(loc)] + ([points(ArrayDesign(loc, 'b', [LocationErrors(err)]).actual_element_locations)] if show else []), 0


def impl_array_figure_3d(loc: 'f[M,D]', err: 'f[M,E]', show: '{True,False}'):
    """sizes: M>=1, D=1|2|3, E=1|2|3"""
    # the new axes are three-dimensional exactly when what is shown is
    plot_array(ArrayDesign(loc, 'a', [LocationErrors(err)]), None, show)
    c = [e for e in probe.calls() if e[0].startswith('plt.')]
    return len([e for e in c if e[2].get('projection') == '3d']), [len(data(e)) for e in own(c)], shown(c)


def spec_array_figure_3d(loc, err, show):
    d, e = loc.shape[1], max(loc.shape[1], err.shape[1])
    return int((e if show else d) == 3), [max(d, 2)] + ([max(e, 2)] if show else []), (1, True, True)


def impl_array_defaults(loc: 'f[M,D]', err: 'f[M,E]', fresh: '{True,False}'):
    """sizes: M>=1, D=1|2|3, E=1|2|3"""
    # actual locations are drawn only when asked for, and told apart by a label
    a = ArrayDesign(loc, 'a', [LocationErrors(err)])
    if fresh:
        plot_array(a)
        return [data(e) for e in own(probe.calls()) if e[0].startswith('plt.')], []
    ax = new_axes()
    plot_array(a, ax)
    b = new_axes()
    plot_array(a, b, True)
    n = named(b)
    return drawn(ax), [len(n), 'nominal' in n[0].lower(), 'actual' in n[1].lower(), 'legend' in [e[0] for e in b.log]]


def spec_array_defaults(loc, err, fresh):
    return [points(loc)], [] if fresh else [2, True, True, True]


def impl_coarray_defaults(fresh: '{True,False}'):
    a = UniformLinearArray(3, 1.0).get_perturbed_copy([LocationErrors(np.array([[0.25], [0.0], [0.125]]))])
    if fresh:
        plot_coarray(a)
        return [np.sort(data(e)[0]) for e in own(probe.calls()) if e[0].startswith('plt.')], shown([e for e in probe.calls() if e[0].startswith('plt.')])
    ax = new_axes()
    plot_coarray(a, ax)
    return [np.sort(v[0]) for v in drawn(ax)], ()


def spec_coarray_defaults(fresh):
    return [differences(np.array([0.0, 1.0, 2.0]))], (1, True, True) if fresh else ()


def impl_coarray(kind: "{'ula','nested','grid'}", show: '{True,False}', perturbed: '{True,False}'):
    ax = new_axes()
    e = [LocationErrors(np.array([[0.25], [0.0], [0.125]]))] if perturbed else []
    a = UniformLinearArray(3, 1.0) if kind == 'ula' else (NestedArray(1, 2, 1.0) if kind == 'nested' else GridBasedArrayDesign(np.array([[0], [2], [3]]), 1.0))
    if perturbed:
        a = a.get_perturbed_copy(e)
    r = plot_coarray(a, ax, show)
    return r is ax, [[np.sort(v[0]), v[1]] for v in drawn(ax)], pyplot()


def spec_coarray(kind, show, perturbed):
    p = np.array([0.0, 1.0, 2.0]) if kind == 'ula' else (np.array([0.0, 1.0, 3.0]) if kind == 'nested' else np.array([0.0, 2.0, 3.0]))
    out = [differences(p)] + ([differences(p + np.array([0.25, 0.0, 0.125]))] if show and perturbed else [])
    return True, [[v, np.zeros(v.shape[0])] for v in out], []


def differences(p):
    out = []
    for i in range(3):
        for j in range(3):
            if all([float(p[i] - p[j]) != v for v in out]):
                out.append(float(p[i] - p[j]))
    return np.array(sorted(out))


BENT = {'plane': np.array([[0.25, 0.5], [0.0, -0.25], [0.125, 0.0625]]), 'space': np.array([[0.25, 0.5, 0.0], [0.0, -0.25, 0.5], [0.125, 0.0625, -1.0]])}


def impl_coarray_bent(nested: '{True,False}', dim: "{'plane','space'}"):
    ax = new_axes()
    d = NestedArray(1, 2, 1.0) if nested else UniformLinearArray(3, 1.0)
    plot_coarray(d.get_perturbed_copy([LocationErrors(BENT[dim])]), ax, True)
    # the differences of the actual locations, in every coordinate
    v = drawn(ax)[1]
    return len(drawn(ax)), len(v), [np.sort(u) for u in v], np.sum(v[0] * v[1]), np.sum(v[0] * v[-1])


def spec_coarray_bent(nested, dim):
    x = np.array(BENT[dim])
    x[:, 0] += np.array([0.0, 1.0, 3.0]) if nested else np.array([0.0, 1.0, 2.0])
    ds = [np.array([0.0] + [u[i] - u[j] for i in range(3) for j in range(3) if i != j]) for u in x.T]
    return 2, x.shape[1], [np.sort(u) for u in ds], np.sum(ds[0] * ds[1]), np.sum(ds[0] * ds[-1])


def impl_coarray_figure(nested: '{True,False}', dim: "{'plane','space'}", show: '{True,False}'):
    # the new axes have as many dimensions as the differences that are shown
    d = NestedArray(1, 2, 1.0) if nested else UniformLinearArray(3, 1.0)
    plot_coarray(d.get_perturbed_copy([LocationErrors(BENT[dim])]), None, show)
    c = [e for e in probe.calls() if e[0].startswith('plt.')]
    return len([e for e in c if e[2].get('projection') == '3d']), [len(data(e)) for e in own(c)], shown(c)


def spec_coarray_figure(nested, dim, show):
    e = 2 if dim == 'plane' else 3
    return int(show and e == 3), [2] + ([e] if show else []), (1, True, True)


class Above(Recorder):
    """Axes whose data never reach down to zero."""

    def get_ylim(self):
        return 0.125, 2.0


def y_limits(ax):
    """Last limits asked for on the y axis, (low, high); None where nothing was asked for."""
    low, high = None, None
    for e in ax.log:
        if e[0] in ('set_ylim', 'set'):
            a = list(e[1])
            if e[0] == 'set':
                a = list(e[2]['ylim']) if 'ylim' in e[2] else []
            elif len(a) == 1 and not probe_number(a[0]):
                a = list(a[0])
            k = e[2] if e[0] == 'set_ylim' else {}
            lo = a[0] if len(a) > 0 else k.get('bottom', k.get('ymin'))
            hi = a[1] if len(a) > 1 else k.get('top', k.get('ymax'))
            low = low if lo is None else lo
            high = high if hi is None else hi
    return low, high


def probe_number(v):
    return np.isscalar(v)


def impl_y_axis(x: 'f[L] in (-1,1)', s: 'f[L]', est: 'f[K] in (-1,1)', log: '{True,False}', discrete: '{True,False}', sources: '{True,False}'):
    """sizes: L>=1, K>=1"""
    ax = Above([], Recorder([]))
    plot_spectrum_1d(s, grid1(x, 'rad'), ax, FarField1DSourcePlacement(est) if sources else None, use_log_scale=log, discrete=discrete)
    low, high = y_limits(ax)
    if log:
        # a logarithmic axis has no room for zero
        return low is None or low > 0
    return low


def spec_y_axis(x, s, est, log, discrete, sources):
    return True if log else 0

import numpy as np
from doatools.model.arrays import ArrayDesign
from doatools.model.perturbations import LocationErrors, GainErrors, PhaseErrors, MutualCoupling
from doatools.model.sources import FarField1DSourcePlacement, FarField2DSourcePlacement, NearField2DSourcePlacement
from doatools.estimation.ml import AMLEstimator, CMLEstimator, WSFEstimator, f_nll_stouc
from specs.lib import A_ff1, A_ff2, A_nf, actual, bound, herm, inv
import probe


def named(name):
    return AMLEstimator if name == 'aml' else (CMLEstimator if name == 'cml' else WSFEstimator)


def bind(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
    return {'fun': lambda x: fun(x, *args), 'x0': x0, 'method': method, 'jac': jac, 'bounds': bounds, 'constraints': constraints, 'tol': tol, 'callback': callback, 'options': options}


def posed(est, R, s, **kw):
    """The minimization problem handed to the solver."""
    a, k = probe.call_of('minimize', lambda: est.estimate(R, s, **kw))
    return bind(*a, **k)


class Table(ArrayDesign):
    """An array whose steering matrix is a free function of the source locations."""

    def __init__(self, m):
        super().__init__(np.zeros((m, 2)), 'table')

    def steering_matrix(self, sources, wavelength, compute_derivatives=False, perturbations='all'):
        return probe.field('a', self.size, sources.locations, wavelength)


def P(A):
    return A @ inv(herm(A) @ A) @ herm(A)


def nll(name, A, R, k):
    m = A.shape[0]
    PA = P(A)
    N = np.eye(m) - PA
    if name == 'cml':
        return np.real(np.trace(N @ R))
    if name == 'aml':
        H = PA @ R @ PA + np.trace(N @ R) / (m - k) * N
        return np.linalg.slogdet(H)[1]
    v, E = np.linalg.eigh(R)
    s2 = np.sum(v[:m - k]) / (m - k)
    Es, vs = E[:, m - k:], v[m - k:]
    return np.real(np.trace(N @ Es @ np.diag((vs - s2) ** 2 / vs) @ herm(Es)))


def impl_objective(m: 'size>=2', R: 'H[m,m]', th: 'f[K] in (-pi/2,pi/2)', x: 'f[K] in (-pi/2,pi/2)', y: 'f[K] in (-pi/2,pi/2)', wl: 'f+', name: "{'cml','wsf'}"):
    """sizes: K>=1
    assume: K<m
    fallback: m=2 K=1; m=3 K=1; m=3 K=2; m=5 K=3; m=4 K=3; m=5 K=1"""
    f = posed(named(name)(Table(m), wl), R, FarField1DSourcePlacement(th))['fun']
    return f(x), f(y), f(x)


def spec_objective(m, R, th, x, y, wl, name):
    k = x.shape[0]
    a, b = nll(name, probe.field('a', m, x, wl), R, k), nll(name, probe.field('a', m, y, wl), R, k)
    return a, b, a


def impl_objective_aml(m: 'size', R: 'H[m,m]', th: 'f[K] in (-pi/2,pi/2)', x: 'f[K] in (-pi/2,pi/2)', y: 'f[K] in (-pi/2,pi/2)', wl: 'f+'):
    """sizes: K=1|2, m=3"""
    f = posed(AMLEstimator(Table(m), wl), R, FarField1DSourcePlacement(th))['fun']
    first = f(y)
    probe.require(first < np.inf)
    v = f(x)
    probe.require(v < np.inf)
    return v


def spec_objective_aml(m, R, th, x, y, wl):
    return nll('aml', probe.field('a', m, x, wl), R, x.shape[0])


def impl_objective_2d(m: 'size>=2', R: 'H[m,m]', x0: 'f[K,2] in (0.1,1.5)', x: 'f[K,2] in (0.1,1.5)', wl: 'f+', name: "{'cml','wsf'}", near: "{True,False}"):
    """sizes: K>=1
    assume: K<m
    fallback: m=2 K=1; m=3 K=2"""
    s = NearField2DSourcePlacement(x0) if near else FarField2DSourcePlacement(x0)
    return posed(named(name)(Table(m), wl), R, s)['fun'](x.reshape(-1))


def spec_objective_2d(m, R, x0, x, wl, name, near):
    return nll(name, probe.field('a', m, x, wl), R, x.shape[0])


def impl_objective_2d_aml(m: 'size', R: 'H[m,m]', x0: 'f[K,2] in (0.1,1.5)', x: 'f[K,2] in (0.1,1.5)', wl: 'f+', near: "{True,False}"):
    """sizes: K=2, m=3"""
    s = NearField2DSourcePlacement(x0) if near else FarField2DSourcePlacement(x0)
    v = posed(AMLEstimator(Table(m), wl), R, s)['fun'](x.reshape(-1))
    probe.require(v < np.inf)
    return v


def spec_objective_2d_aml(m, R, x0, x, wl, near):
    return nll('aml', probe.field('a', m, x, wl), R, x.shape[0])


def impl_objective_array(loc: 'f[M,D]', R: 'H[M,M]', th: 'f[K] in (-1,1)', x: 'f[K] in (-1,1)', wl: 'f+'):
    """sizes: M>=2, K>=1, D=1|2
    assume: K<M
    fallback: M=2 K=1; M=3 K=1; M=3 K=2"""
    return posed(CMLEstimator(ArrayDesign(loc, 'x'), wl), R, FarField1DSourcePlacement(th, 'sin'))['fun'](x)


def spec_objective_array(loc, R, th, x, wl):
    return nll('cml', A_ff1(loc, x, 'sin', wl), R, x.shape[0])


def impl_objective_array_deg(loc: 'f[M,D]', R: 'H[M,M]', th: 'f[K] in (-90,90)', x: 'f[K] in (-90,90)', wl: 'f+'):
    """sizes: M>=2, K>=1, D=1
    assume: K<M
    fallback: M=2 K=1; M=3 K=1; M=3 K=2"""
    return posed(WSFEstimator(ArrayDesign(loc, 'x'), wl), R, FarField1DSourcePlacement(th, 'deg'))['fun'](x)


def spec_objective_array_deg(loc, R, th, x, wl):
    return nll('wsf', A_ff1(loc, x, 'deg', wl), R, x.shape[0])


BOUNDED = ('L-BFGS-B', 'TNC', 'SLSQP', 'Powell', 'Nelder-Mead', 'trust-constr')


def problem(p):
    return p['x0'], np.array([list(b) for b in p['bounds']]), p['method'] is None or p['method'] in BOUNDED


def impl_start_ff1(m: 'size>=2', R: 'H[m,m]', th: 'f[K] in (-1,1)', wl: 'f+', unit: "{'rad','deg','sin'}", name: "{'aml','cml','wsf'}"):
    """sizes: K=1|2|3
    assume: K<m"""
    return problem(posed(named(name)(Table(m), wl), R, FarField1DSourcePlacement(th, unit)))


def spec_start_ff1(m, R, th, wl, unit, name):
    b, o = bound(unit), np.ones(th.shape[0])
    return th, np.stack([-b * o, b * o], 1), True


def impl_start_2d(m: 'size', R: 'H[m,m]', x: 'f[K,2] in (0.1,1.5)', wl: 'f+', kind: "{'rad','deg','near'}", name: "{'aml','cml','wsf'}"):
    """sizes: K=1|2, m=4"""
    s = NearField2DSourcePlacement(x) if kind == 'near' else FarField2DSourcePlacement(x, kind)
    return problem(posed(named(name)(Table(m), wl), R, s))


def spec_start_2d(m, R, x, wl, kind, name):
    if kind == 'near':
        row = [[-np.inf, np.inf], [-np.inf, np.inf]]
    elif kind == 'deg':
        row = [[-180.0, 180.0], [-90.0, 90.0]]
    else:
        row = [[-np.pi, np.pi], [-np.pi / 2, np.pi / 2]]
    return x.reshape(-1), np.array(row * x.shape[0]), True


def impl_options(m: 'size>=2', R: 'H[m,m]', th: 'f[K] in (-1,1)', wl: 'f+', tol: 'f+', name: "{'aml','cml','wsf'}"):
    """sizes: K=1|2
    assume: K<m"""
    est = named(name)(Table(m), wl)
    p = posed(est, R, FarField1DSourcePlacement(th), tol=tol, options={'maxiter': 7}, callback='cb')
    q = posed(est, R, FarField1DSourcePlacement(th))
    return p['tol'], p['options'], p['callback'], q['tol'], q['options'], q['callback'], q['jac'], len(q['constraints'])


def spec_options(m, R, th, wl, tol, name):
    return tol, {'maxiter': 7}, 'cb', None, None, None, None, 0


class Outcome:
    def __init__(self, x, success):
        self.x = x
        self.success = success
        self.fun = 0.0
        self.message = ''
        self.status = 0 if success else 1
        self.nit = 1


def impl_result_ff1(m: 'size>=2', R: 'H[m,m]', th: 'f[K] in (-1,1)', x: 'f[K] in (-1,1)', wl: 'f+', unit: "{'rad','deg','sin'}", name: "{'aml','cml','wsf'}", success: "{True,False}"):
    """sizes: K>=1
    assume: K<m"""
    probe.result_of('minimize', Outcome(x, success))
    s = FarField1DSourcePlacement(th, unit)
    est = named(name)(Table(m), wl)
    ok, e = est.estimate(R, s)
    if not success:
        return ok, e, s.locations
    return ok, type(e).__name__, e.units, e.locations, est.get_last_estimates().locations, s.locations, s.units, probe.shares(e.locations, s.locations), probe.shares(e.locations, x)


def spec_result_ff1(m, R, th, x, wl, unit, name, success):
    if not success:
        return False, None, th
    return True, 'FarField1DSourcePlacement', (unit,), x, x, th, (unit,), False, False


def impl_result_2d(m: 'size>=2', R: 'H[m,m]', x0: 'f[K,2] in (0.1,1.5)', x: 'f[K,2] in (0.1,1.5)', wl: 'f+', kind: "{'rad','deg','near'}", name: "{'aml','cml','wsf'}", success: "{True,False}"):
    """sizes: K>=1
    assume: K<m"""
    probe.result_of('minimize', Outcome(x.reshape(-1), success))
    s = NearField2DSourcePlacement(x0) if kind == 'near' else FarField2DSourcePlacement(x0, kind)
    est = named(name)(Table(m), wl)
    ok, e = est.estimate(R, s)
    if not success:
        return ok, e, s.locations
    return ok, type(e).__name__, e.units, e.locations, est.get_last_estimates().locations, s.locations


def spec_result_2d(m, R, x0, x, wl, kind, name, success):
    if not success:
        return False, None, x0
    u = ('m', 'm') if kind == 'near' else (kind, kind)
    return True, 'NearField2DSourcePlacement' if kind == 'near' else 'FarField2DSourcePlacement', u, x, x, x0


def impl_last_estimates(m: 'size>=2', R: 'H[m,m]', th: 'f[K] in (-1,1)', x: 'f[K] in (-1,1)', y: 'f[L] in (-1,1)', wl: 'f+', name: "{'aml','cml','wsf'}"):
    """sizes: K>=1, L>=1
    assume: K<m; L<m"""
    est = named(name)(Table(m), wl)
    before = probe.catch(est.get_last_estimates)
    probe.result_of('minimize', Outcome(x, True), Outcome(y, True))
    ok, first = est.estimate(R, FarField1DSourcePlacement(th))
    ok, second = est.estimate(R, FarField1DSourcePlacement(y * 0.5, 'sin'))
    last = est.get_last_estimates()
    return before, first.locations, first.units, second.locations, second.units, last.locations, last.units, probe.shares(last.locations, second.locations), probe.shares(est.get_last_estimates().locations, last.locations)


def spec_last_estimates(m, R, th, x, y, wl, name):
    return 'RuntimeError', x, ('rad',), y, ('sin',), y, ('sin',), False, False


# ------------------------------------------------------------ stochastic likelihood with uncorrelated sources
def impl_nll_uncorrelated(m: 'size>=1', R: 'H[m,m]', th: 'f[K] in (-1,1)', p: 'f[K] in (0.001,0.02)', s: 'f in (0.001,0.5)', wl: 'f+'):
    """sizes: K>=1
    fallback: m=2 K=1; m=3 K=2; m=2 K=3"""
    v = f_nll_stouc(R, Table(m), FarField1DSourcePlacement(th), wl, p, s)
    return np.real(v)


def spec_nll_uncorrelated(m, R, th, p, s, wl):
    A = probe.field('a', m, th, wl)
    S = A @ np.diag(p) @ herm(A) + s * np.eye(m)
    sign, v = np.linalg.slogdet(S)
    if sign <= 0:
        return probe.ANY
    return v + np.real(np.trace(inv(S) @ R))


def impl_nll_perturbed(x: 'f[M,1]', err: 'f[M,1]', g: 'f[M] in (-0.5,0.5)', ph: 'f[M]', C: 'c[M,M]', R: 'H[M,M]', th: 'f[K] in (-1,1)', p: 'f+[K]', s: 'f+', wl: 'f+', kl: '{True,False}', kc: '{True,False}'):
    """sizes: M=2, K=1"""
    # the model covariance is that of the array as it is, known and unknown perturbations alike
    a = ArrayDesign(x, 'a', perturbations=[LocationErrors(err, kl), GainErrors(g, not kl), PhaseErrors(ph, kl), MutualCoupling(C, kc)])
    return np.real(f_nll_stouc(R, a, FarField1DSourcePlacement(th), wl, p, s))


def spec_nll_perturbed(x, err, g, ph, C, R, th, p, s, wl, kl, kc):
    A = C @ (((1 + g) * np.exp(1j * ph))[:, None] * A_ff1(x + err, th, 'rad', wl))
    S = A @ np.diag(p) @ herm(A) + s * np.eye(x.shape[0])
    sign, v = np.linalg.slogdet(S)
    if sign <= 0:
        return probe.ANY
    return v + np.real(np.trace(inv(S) @ R))


def impl_aml_singular(m: 'size', th: 'f[K] in (-pi/2,pi/2)', x: 'f[K] in (-pi/2,pi/2)'):
    """sizes: K=1|2, m=3"""
    # no fitted covariance is positive definite: the objective refuses the point
    return posed(AMLEstimator(Table(m), 1.0), np.zeros((m, m)), FarField1DSourcePlacement(th))['fun'](x)


def spec_aml_singular(m, th, x):
    return np.inf

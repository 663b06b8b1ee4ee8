# Planted bugs: cost, observers, gradients, proximity and linear operators, reweighting
CO = 'opt/cost.py'
OB = 'base/observable.py'
GR = 'opt/gradient.py'
PX = 'opt/proximity.py'
LB = 'opt/linear/base.py'
LW = 'opt/linear/wavelet.py'
RW = 'opt/reweight.py'
FB = 'opt/algorithms/forward_backward.py'
PD = 'opt/algorithms/primal_dual.py'
GD = 'opt/algorithms/gradient_descent.py'

COST = '''
from modopt.opt.cost import costObj


class Op:
    def __init__(self):
        self.vals = []

    def cost(self, x, **kwargs):
        return x


def results(vals, **kw):
    c = costObj([Op()], verbose=False, **kw)
    return [bool(c.get_cost(v)) for v in vals], c


'''

S('c07-window-slides', 'C07', [(CO, '            self._test_list = []\n\n            if self._verbose', '            self._test_list = self._test_list[1:]\n\n            if self._verbose')],
  'more cost values than one test window', 'after a test the window must start afresh; it now slides by one value', COST + '''
got, _ = results([5.0, 4.0, 3.0, 3.0, 3.0, 3.0, 3.0, 3.0, 3.0, 3.0])
check(got == [False] * 7 + [True] + [False] * 2, "convergence reported at %s" % got)
''')

S('c07-odd-window', 'C07', [(CO, 'xp.array(self._test_list[: len(self._test_list) // 2]),', 'xp.array(self._test_list[: (len(self._test_list) + 1) // 2]),')],
  'an odd test range', 'the older half must exclude the middle value, which belongs to the newer half', COST + '''
got, _ = results([4.0, 1.0, 7.0], test_range=3, tolerance=0.2)
check(got == [False, False, True], "halves [4] and [1, 7] have equal means: %s" % got)
got, _ = results([4.0, 6.0, 7.0], test_range=3, tolerance=0.29)
check(got == [False, False, False], "halves [4] and [6, 7]: %s" % got)
''')

S('c07-tiny-costs', 'C07', [(CO, 'if xp.around(t1, decimals=16):', 'if xp.around(t1, decimals=12):')],
  'costs below 1e-12', 'only a vanishing mean counts as converged, not a small one', COST + '''
got, _ = results([4e-14, 3e-14, 2e-14, 1e-14])
check(got == [False] * 4, "reported convergence of decreasing costs: %s" % got)
got, _ = results([0.0, 0.0, 0.0, 0.0])
check(got == [False] * 3 + [True], "zero cost: %s" % got)
''')

S('c08-duplicate-observer', 'C08', [(OB, 'if observer not in self._observers[signal]:', 'if observer not in self._observers:')],
  'registering the same observer twice', 'an observer may be registered only once per signal', '''
from modopt.base.observable import Observable
o = Observable(["a", "b"])
seen = []
f = seen.append
g = lambda s: seen.append(s)
o.add_observer("a", g)
o.add_observer("a", g)
o.notify_observers("a", x=1)
check(len(seen) == 1, "observer called %d times" % len(seen))
''')

S('c08-odd-metric-window', 'C08', [(OB, '        mid_idx = -(self.wind // 2)\n', '        mid_idx = start_idx // 2\n')],
  'a metric observer with an odd window', 'the newer half of an odd window must be the shorter one', '''
from modopt.base.observable import MetricObserver
m = MetricObserver("m", None, {}, {}, early_stopping=True, wind=5, eps=0.05)
m.list_cv_values = [1.0, 1.0, 4.0, 2.0, 2.0]
m.is_converge()
check(bool(m.converge_flag), "means of [1, 1, 4] and [2, 2] are equal")
''')

S('c08-sticky-flag', 'C08', [(OB, '        self.converge_flag = normalize_residual_metrics < self.eps\n', '        if normalize_residual_metrics < self.eps:\n            self.converge_flag = True\n')],
  'a metric that is flat for one window and moves again afterwards', 'convergence must be declared exactly when the current windows agree', '''
from modopt.base.observable import MetricObserver
m = MetricObserver("m", None, {}, {}, early_stopping=True, wind=4, eps=0.01)
m.list_cv_values = [1.0, 1.0, 1.0, 1.0]
m.is_converge()
check(bool(m.converge_flag), "flat window")
m.list_cv_values += [5.0, 9.0]
m.is_converge()
check(not m.converge_flag, "moving window still reported as converged")
''')

S('c08-const-override', 'C08', [(OB, '        kwargs = {}\n        for key, key_value', '        kwargs = dict(self.cst_kwargs)\n        for key, key_value'),
                                 (OB, '        kwargs.update(self.cst_kwargs)\n', '')],
  'a constant metric argument with the same name as a mapped one', 'the constant arguments take precedence over the mapped values', '''
from modopt.base.observable import MetricObserver


class Sig:
    idx = 0
    x_new = 3.0


m = MetricObserver("m", lambda test, ref: test + 10 * ref, {"x_new": "test"}, {"ref": 1.0, "test": 2.0})
m(Sig())
check(m.list_cv_values == [12.0], "constant argument overridden: %s" % m.list_cv_values)
''')

S('c09-metric-constants', 'C09', [(OB, '        kwargs = {}\n        for key, key_value', '        kwargs = self.cst_kwargs\n        for key, key_value'),
                                   (OB, '        kwargs.update(self.cst_kwargs)\n', '')],
  'inspecting the dictionary of constant metric arguments after a notification', "the caller's dictionary of constant arguments is filled with the iterates", '''
from modopt.base.observable import MetricObserver


class Sig:
    idx = 0
    x_new = 3.0


cst = {"ref": 1.0}
m = MetricObserver("m", lambda test, ref: test + 10 * ref, {"x_new": "test"}, cst)
m(Sig())
check(cst == {"ref": 1.0}, "caller's dictionary is now %s" % cst)
''')

S('c09-saga-direction', 'C09', [(GD, '        self._dir_grad = self._dir_grad - self._grad_memory[cycle] + grad\n        self._grad_memory[cycle] = grad\n',
                                 '        grad -= self._grad_memory[cycle]\n        self._dir_grad = self._dir_grad + grad\n        self._grad_memory[cycle] += grad\n')],
  'SAGA with a gradient operator that keeps its gradient array', "the gradient operator's array is modified in place from the second epoch on", '''
from modopt.opt.algorithms import SAGAOptGradOpt
from modopt.opt.proximity import IdentityProx


class G:
    def get_grad(self, x):
        self.grad = 2.0 * np.array(x) + 1
        self.keep = self.grad.copy()


g = G()
with contextlib.redirect_stderr(io.StringIO()):
    a = SAGAOptGradOpt(np.ones(3), g, IdentityProx(), None, eta=1e-9, epoch_size=2, progress=False)
for i in range(6):
    a.idx = i
    a._update()
    check(close(g.grad, g.keep), "gradient array modified at iteration %d" % i)
''')

S('c26-current-weights', 'C26', [(RW, 'thresh_weights = self.thresh_factor * self.original_weights', 'thresh_weights = self.thresh_factor * self.weights')],
  'at least two reweightings', 'the factor must use the original weights, not the current ones', '''
from modopt.opt.reweight import cwbReweight
w = np.array([1.0, 2.0, 4.0])
r = cwbReweight(w.copy(), thresh_factor=0.5)
x = np.array([0.5, -1.0, 3.0])
f = 1 / (1 + np.abs(x) / (0.5 * w))
exp = w.copy()
for _ in range(3):
    r.reweight(x)
    exp = exp * f
    check(close(r.weights, exp), "weights %s expected %s" % (r.weights, exp))
''')

S('c26-shared-original', 'C26', [(RW, '        self.original_weights = np.copy(self.weights)\n', '        self.original_weights = self.weights\n')],
  'at least two reweightings', 'the original weights are the same array as the weights that are updated in place', '''
from modopt.opt.reweight import cwbReweight
w = np.array([1.0, 2.0, 4.0])
r = cwbReweight(w.copy())
x = np.array([0.5, -1.0, 3.0])
f = 1 / (1 + np.abs(x) / w)
exp = w.copy()
for _ in range(3):
    r.reweight(x)
    exp = exp * f
    check(close(r.weights, exp), "weights %s expected %s" % (r.weights, exp))
''')

S('c26-not-shared', 'C26', [(RW, '        self.weights *= np.array(', '        self.weights = self.weights * np.array(')],
  'a proximity operator sharing the weights with the reweighting scheme', 'the weights shared with the proximity operator must be updated', '''
from modopt.opt.reweight import cwbReweight
w = np.array([1.0, 2.0, 4.0])
r = cwbReweight(w)
x = np.array([0.5, -1.0, 3.0])
r.reweight(x)
check(close(w, np.array([1.0, 2.0, 4.0]) / (1 + np.abs(x) / np.array([1.0, 2.0, 4.0]))), "shared weights not updated: %s" % w)
''')

S('c10-elastic-factor', 'C10', [(PX, 'normalization = self.alpha * 2 * extra_factor + 1', 'normalization = self.alpha * 2 + 1')],
  'a solver step size different from one', 'the quadratic weight must be scaled by the factor as well', '''
from modopt.opt.proximity import ElasticNet
from modopt.opt.linear import Identity
x = np.array([1.0, -2.0, 3.0, 0.1])
for f in (1.0, 0.3, 2.0):
    got = ElasticNet(Identity(), 0.7, 0.4).op(x, extra_factor=f)
    exp = np.sign(x) * np.maximum(np.abs(x) - 0.4 * f, 0) / (1 + 2 * 0.7 * f)
    check(close(got, exp), "elastic net with factor %s" % f)
''')

S('c10-ksup-factor', 'C10', [(PX, 'theta += alpha_input > (self.beta * extra_factor + 1)', 'theta += alpha_input > (self.beta + 1)')],
  'a scaling factor different from one', 'every occurrence of beta must be scaled by the factor', '''
from modopt.opt.proximity import KSupportNorm
k = KSupportNorm(beta=0.5, k_value=3)
x = np.array([3.0, -1.5, 0.7, 0.2, 2.2, -0.4])
a = KSupportNorm(beta=0.5 * 2.4, k_value=3).op(x, extra_factor=1.0)
b = KSupportNorm(beta=0.5, k_value=3).op(x, extra_factor=2.4)
check(close(a, b), "scaling beta and scaling the factor differ: %s %s" % (a, b))
a = KSupportNorm(beta=0.5 * 0.2, k_value=3).op(x, extra_factor=1.0)
b = KSupportNorm(beta=0.5, k_value=3).op(x, extra_factor=0.2)
check(close(a, b), "scaling beta and scaling the factor differ: %s %s" % (a, b))
''')

S('c10-owl-order-memory', 'C10', [(PX, '        self.weights = weights.flatten()\n', '        self.weights = weights.flatten()\n        self._order = None\n'),
                                  (PX, '        data_abs_sort_idx = np.argsort(data_abs)[::-1]\n', '        if self._order is None or self._order.size != data_abs.size:\n            self._order = np.argsort(data_abs)[::-1]\n        data_abs_sort_idx = self._order\n')],
  'two calls with data of the same size but another order of magnitudes', 'the result depends on the data of the first call', '''
from modopt.opt.proximity import OrderedWeightedL1Norm
w = np.array([0.6, 0.3, 0.1])
p = OrderedWeightedL1Norm(w)
p.op(np.array([3.0, 2.0, 1.0]))
x = np.array([1.0, -2.0, 3.0])
check(close(p.op(x), OrderedWeightedL1Norm(w).op(x)), "second call differs from a fresh operator")
''')

S('c10-group-complex', 'C10', [(PX, '        norm2 = np.linalg.norm(input_data, axis=0)\n', '        norm2 = np.sqrt(np.abs(np.sum(input_data**2, axis=0)))\n')],
  'complex data', 'the group norm must use the modulus of complex entries', '''
from modopt.opt.proximity import GroupLASSO
x = np.array([[1 + 1j, 2.0], [1 - 1j, 0.5j]])
got = GroupLASSO(0.3).op(x, extra_factor=2.0)
exp = x * np.maximum(0, 1 - 0.6 / np.linalg.norm(x, axis=0))
check(close(got, exp), "group lasso of complex data")
''')

S('c11-matrix-adjoint', 'C11', [(LB, 'if xp.any(xp.iscomplex(array)):', 'if xp.any(xp.iscomplex(array[0])):')],
  'a complex matrix whose first row is real', 'the adjoint must conjugate whenever the matrix is complex', '''
from modopt.opt.linear import MatrixOperator
rng = np.random.default_rng(0)
a = rng.random((3, 4)) + 1j * rng.random((3, 4))
a[0] = [1.0, 2.0, 3.0, 4.0]
m = MatrixOperator(a)
x = rng.random(4) + 1j * rng.random(4)
y = rng.random(3) + 1j * rng.random(3)
check(close(np.vdot(y, m.op(x)), np.vdot(m.adj_op(y), x)), "adjoint relation")
''')

S('c11-combo-factor', 'C11', [(PX, '                extra_factor=extra_factor,\n            )\n\n        return res', '                extra_factor=extra_factor if index else 1.0,\n            )\n\n        return res')] ,
  'a step size different from one', 'every component must receive the scaling factor', '''
from modopt.opt.proximity import ProximityCombo, SparseThreshold
from modopt.opt.linear import Identity
ops = [SparseThreshold(Identity(), w) for w in (1.0, 2.0, 3.0)]
x = np.array([np.arange(3.0), np.arange(3.0) * 2, np.arange(3.0) * 3 + 1])
got = ProximityCombo(ops).op(x, extra_factor=0.5)
for g, o, v in zip(got, ops, x):
    check(close(g, o.op(v, extra_factor=0.5)), "component")
''')

S('c11-composition-cost', 'C11', [(PX, 'return self.prox_op.cost(self.linear_op.op(args[0]), **kwargs)', 'return self.prox_op.cost(args[0], **kwargs)')],
  'a linear operator that is not the identity', 'the cost must be evaluated on the transformed data', '''
from modopt.opt.proximity import LinearCompositionProx, SparseThreshold
from modopt.opt.linear import MatrixOperator, Identity
m = np.array([[1.0, 2.0], [0.0, 3.0]])
p = LinearCompositionProx(MatrixOperator(m), SparseThreshold(Identity(), 1.0))
check(close(p.cost(np.array([1.0, 1.0])), 6.0), "cost of the composition")
''')

S('c11-combo-weights-sign', 'C11', [(LB, '                weight * operator.adj_op(elem)', '                abs(weight) * operator.adj_op(elem)')],
  'negative weights', 'the adjoint of a weighted combination is the plain weighted sum', '''
from modopt.opt.linear import LinearCombo, MatrixOperator
a, b = np.eye(2), np.array([[2.0, 1.0], [0.0, 1.0]])
c = LinearCombo([MatrixOperator(a), MatrixOperator(b)], weights=[2.0, -3.0])
y = [np.array([1.0, 2.0]), np.array([3.0, 4.0])]
check(close(c.adj_op(y), 2 * a.T @ y[0] - 3 * b.T @ y[1]), "weighted adjoint")
''')

S('c12-stale-data', 'C12', [(GR, '        self._obs_data = input_data\n', '        if not hasattr(self, "_obs_data") or self._input_data_writeable:\n            self._obs_data = input_data\n')],
  'replacing the observed data of an existing gradient operator', 'the new observed data are silently ignored', '''
from modopt.opt.gradient import GradBasic
a = np.array([[1.0, 2.0], [0.0, 3.0]])
g = GradBasic(np.array([1.0, 2.0]), lambda x: a @ x, lambda y: a.T @ y, verbose=False)
g.obs_data = np.array([4.0, -1.0])
x = np.array([0.5, 0.25])
g.get_grad(x)
check(close(g.grad, a.T @ (a @ x - np.array([4.0, -1.0]))), "gradient uses stale data")
''')

S('c12-complex-cost', 'C12', [(GR, 'cost_val = 0.5 * np.linalg.norm(self.obs_data - self.op(args[0])) ** 2', 'cost_val = 0.5 * np.abs(np.sum((self.obs_data - self.op(args[0])) ** 2))')],
  'complex data', 'the cost is half the squared norm of the residual', '''
from modopt.opt.gradient import GradBasic
y = np.array([1.0 + 2j, -1j, 3.0])
g = GradBasic(y, lambda x: x, lambda x: x, verbose=False)
x = np.array([0.5, 1j, 1 + 1j])
check(close(g.cost(x), 0.5 * np.sum(np.abs(y - x) ** 2)), "cost of complex data")
''')

S('c12-float-request', 'C12', [(GR, '        if self._grad_data_type in {float, np.floating}:\n            input_value = check_float(input_value)\n', '        if self._grad_data_type is float:\n            input_value = check_float(input_value)\n')],
  'data_type=np.floating and a gradient of integers', 'gradients must be converted when a float type is requested', '''
from modopt.opt.gradient import GradParent
for t in (float, np.floating):
    g = GradParent(np.array([1, 2]), lambda x: x, lambda x: x, data_type=t, verbose=False)
    g.grad = np.array([1, 2, 3])
    check(np.issubdtype(g.grad.dtype, np.floating), "gradient not converted for %s" % t)
''')

S('c12-writeable', 'C12', [(GR, '            writeable=self._input_data_writeable,\n', '            writeable=self._input_data_writeable or not self.verbose,\n')],
  'verbose=False and data that should be protected', 'observed data must be made read-only whatever the verbosity', '''
from modopt.opt.gradient import GradBasic
for v in (True, False):
    y = np.array([1.0, 2.0])
    with contextlib.redirect_stderr(io.StringIO()):
        g = GradBasic(y, lambda x: x, lambda x: x, verbose=v)
    check(not g.obs_data.flags.writeable, "observed data writeable with verbose=%s" % v)
''')

S('c21-grad-cost-print', 'C21', [(GR, '        if kwargs.get("verbose"):\n            print(" - DATA FIDELITY (X):", cost_val)', '        if kwargs.get("verbose", self.verbose):\n            print(" - DATA FIDELITY (X):", cost_val)')],
  'calling the cost without a verbosity argument', 'the cost prints although no verbosity was requested', '''
from modopt.opt.gradient import GradBasic
with contextlib.redirect_stderr(io.StringIO()):
    g = GradBasic(np.array([1.0, 2.0]), lambda x: x, lambda x: x)
s = io.StringIO()
with contextlib.redirect_stdout(s):
    g.cost(np.array([1.0, 1.0]))
check(s.getvalue() == "", "printed %r" % s.getvalue())
''')

S('c25-metric-period', 'C25', [(GD, '            metric_call_period=metric_call_period,\n', '            metric_call_period=metric_call_period or 5,\n')],
  'metric_call_period=None', 'None must switch metrics off', '''
from modopt.opt.algorithms import VanillaGenericGradOpt
from modopt.opt.proximity import IdentityProx


class G:
    def get_grad(self, x):
        self.grad = 2.0 * np.array(x)


n = []
m = {"a": {"metric": lambda v: n.append(1) or 1.0, "mapping": {"x_new": "v"}, "cst_kwargs": {}, "early_stopping": False}}
with contextlib.redirect_stderr(io.StringIO()):
    a = VanillaGenericGradOpt(np.ones(3), G(), IdentityProx(), None, eta=0.1, metrics=m, metric_call_period=None, progress=False)
a.iterate(max_iter=3)
check(not n, "metrics evaluated %d times although disabled" % len(n))
''')

S('c25-reweight-count', 'C25', [(PD, 'self.iterate(max_iter=max_iter, n_rewightings=n_rewightings)', 'self.iterate(max_iter=max_iter)')],
  'automatic iteration with more than one reweighting', 'the requested number of reweightings is ignored', '''
from modopt.opt.algorithms import Condat
from modopt.opt.gradient import GradBasic
from modopt.opt.proximity import SparseThreshold, Positivity
from modopt.opt.linear import Identity


class R:
    n = 0

    def reweight(self, x):
        R.n += 1


f = lambda v: v
Condat(np.ones(4), np.ones(4), GradBasic(np.arange(4.0), f, f, verbose=False), Positivity(), SparseThreshold(Identity(), np.ones(4)),
       cost=None, reweight=R(), max_iter=2, n_rewightings=3, progress=False)
check(R.n == 3, "%d reweightings instead of 3" % R.n)
''')

S('c25-lowrank-type', 'C25', [(PX, '                extra_vals=5,\n                thresh_type=self.thresh_type,\n', '                extra_vals=5,\n')],
  'soft thresholding with a rank given', 'the requested threshold type is ignored by the fast variant', '''
from modopt.opt.proximity import LowRankMatrix
rng = np.random.default_rng(1)
d = rng.random((6, 4, 4))
a = LowRankMatrix(0.5, thresh_type="soft").op(d)
b = LowRankMatrix(0.5, thresh_type="soft", initial_rank=3).op(d)
m = d.reshape(6, 16).T
s = np.linalg.svd(m)[1]
check(abs(np.linalg.norm(b) - np.sqrt(np.sum(np.maximum(s[:5] - 0.5, 0) ** 2))) < 1e-6, "not soft thresholded")
''')

S('c14-rank-precedence', 'C14', [(PX, 'n_vals=rank or self.rank,', 'n_vals=self.rank or rank,')],
  'a rank given to the call of an operator that already has a rank', 'the rank of the call takes precedence', '''
from modopt.opt import proximity
seen = []
orig = proximity.svd_thresh_coef_fast


def spy(data, threshold, n_vals=-1, **k):
    seen.append(n_vals)
    return orig(data, threshold, n_vals=n_vals, **k)


proximity.svd_thresh_coef_fast = spy
p = proximity.LowRankMatrix(0.5, initial_rank=2)
p.op(np.random.default_rng(1).random((8, 4, 4)), rank=4)
check(seen == [4], "rank %s used instead of 4" % seen)
''')

S('c23-progbar-reset', 'C23', [(PD, 'progbar.reset(total=max_iter)', 'progbar.reset(max_iter=max_iter)')],
  'reweighting together with a progress bar supplied by the user', 'the bar is reset with an argument it does not accept', '''
from modopt.opt.algorithms import Condat
from modopt.opt.gradient import GradBasic
from modopt.opt.proximity import SparseThreshold, Positivity
from modopt.opt.linear import Identity
from tqdm import tqdm


class R:
    def reweight(self, x):
        pass


f = lambda v: v
alg = Condat(np.ones(4), np.ones(4), GradBasic(np.arange(4.0), f, f, verbose=False), Positivity(), SparseThreshold(Identity(), np.ones(4)),
             cost=None, reweight=R(), auto_iterate=False, progress=False)
try:
    alg.iterate(max_iter=2, progbar=tqdm(total=2, file=io.StringIO()))
except TypeError as e:
    check(False, str(e))
''')

S('c19-genfb-weights', 'C19', [(FB, 'if weights.size != self._prox_list.size:', 'if weights.size < self._prox_list.size:')],
  'more weights than proximity operators', 'a wrong number of weights must be refused', '''
from modopt.opt.algorithms import GenForwardBackward
from modopt.opt.gradient import GradBasic
from modopt.opt.proximity import Positivity
f = lambda v: v
for w in ([0.5, 0.25, 0.25], [1.0]):
    try:
        GenForwardBackward(np.ones(3), GradBasic(np.ones(3), f, f, verbose=False), [Positivity(), Positivity()], cost=None, weights=w,
                           auto_iterate=False)
    except ValueError:
        continue
    check(False, "weights %s accepted" % w)
''')

S('c19-combo-weights', 'C19', [(LB, 'if weights.size != operators.size:', 'if weights.size < operators.size:')],
  'more weights than operators', 'a wrong number of weights must be refused', '''
from modopt.opt.linear import LinearCombo, Identity
try:
    LinearCombo([Identity(), Identity()], weights=[0.5, 0.3, 0.2])
except ValueError:
    sys.exit(0)
check(False, "three weights for two operators accepted")
''')

S('c19-owl-descending', 'C19', [(PX, 'if np.max(np.diff(weights)) > 0:', 'if np.sum(np.diff(weights)) > 0:')],
  'weights that increase somewhere but decrease overall', 'increasing weights must be refused', '''
from modopt.opt.proximity import OrderedWeightedL1Norm
try:
    OrderedWeightedL1Norm(np.array([5.0, 1.0, 2.0]))
except ValueError:
    sys.exit(0)
check(False, "increasing weights accepted")
''')

S('c25-waveconv-method', 'C16', [(LW, '            filter_rot=True,\n            method=method,\n', '            filter_rot=True,\n')],
  "WaveletConvolve with method='astropy'", 'forward map and adjoint use different convolution methods', '''
from modopt.opt.linear import WaveletConvolve
rng = np.random.default_rng(5)
f = rng.random((2, 3, 3))
w = WaveletConvolve(f, method="astropy")
x = rng.random((1, 9, 9))
from modopt.signal.wavelet import filter_convolve_stack
c = w.op(x)
check(close(w.adj_op(c), filter_convolve_stack(c, f, filter_rot=True, method="astropy")), "adjoint uses another method")
''')

S('c16-idwt-mode', 'C16', [(LW, '            wavelet=self.wavelet,\n            mode=self.mode,\n        )\n\n', '            wavelet=self.wavelet,\n        )\n\n')],
  'a boundary mode other than symmetric', 'the synthesis must use the boundary mode of the analysis', '''
from modopt.opt.linear import WaveletTransform
rng = np.random.default_rng(5)
x = rng.random((16, 16))
w = WaveletTransform("db4", shape=(16, 16), level=2, mode="periodization")
c = w.op(x)
try:
    y = w.adj_op(c)
except Exception as e:
    check(False, repr(e))
check(y.shape == x.shape and close(y, x), "periodized transform is not inverted")
''')

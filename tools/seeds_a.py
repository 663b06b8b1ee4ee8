# Planted bugs: solvers.  S(id, property, [(file, old, new)], needs, breaks, demo)
FB = 'opt/algorithms/forward_backward.py'
PD = 'opt/algorithms/primal_dual.py'
GD = 'opt/algorithms/gradient_descent.py'
AD = 'opt/algorithms/admm.py'
AB = 'opt/algorithms/base.py'

OPS = '''
from modopt.opt.gradient import GradBasic
from modopt.opt.proximity import SparseThreshold, Positivity, IdentityProx
from modopt.opt.linear import Identity
from modopt.opt import algorithms


class Lin:
    """x -> c * (x - t): gradient of a simple quadratic, with a cost."""

    def __init__(self, c, t):
        self.c, self.t = c, t

    def get_grad(self, x):
        self.grad = self.c * (np.asarray(x) - self.t)

    def cost(self, *args, **kwargs):
        return 0.5 * self.c * np.sum((args[0] - self.t) ** 2)


class Soft:
    def __init__(self, w):
        self.w = w
        self.factors = []

    def op(self, x, extra_factor=1.0):
        self.factors.append(np.array(extra_factor))
        w = self.w * extra_factor
        return np.sign(x) * np.maximum(np.abs(x) - w, 0)

    def cost(self, *args, **kwargs):
        return self.w * np.sum(np.abs(args[0]))


X0 = np.linspace(-1.5, 2.0, 8)
T = np.cos(np.arange(8.0)) * 2
'''

S('c01-genfb-uniform-weight', 'C01', [(FB, 'extra_factor=self._gamma / self._weights[i],', 'extra_factor=self._gamma * self._prox_list.size,')],
  'non-uniform proximity weights given to GenForwardBackward',
  'each proximity operator must be scaled by gamma over its own weight; the factor now assumes uniform weights', OPS + '''
p1, p2 = Soft(0.3), Soft(0.1)
w = [0.25, 0.75]
alg = algorithms.GenForwardBackward(X0, Lin(1.0, T), [p1, p2], cost=None, gamma_param=0.5, weights=w, auto_iterate=False, progress=False)
alg.iterate(max_iter=3)
check(close(p1.factors, 0.5 / 0.25), "first operator factor")
check(close(p2.factors, 0.5 / 0.75), "second operator factor")
''')

S('c01-pogm-sigma-forget', 'C01', [(FB, 'self._sigma *= self._sigma_bar', 'self._sigma = self._sigma_bar')],
  'two consecutive iterations with negatively correlated gradients without a restart, sigma_bar < 1',
  'POGM must decrease sigma geometrically; it now stays at sigma_bar', OPS + '''
class Flip:
    """A gradient that changes sign at every call, tiny enough not to restart."""

    def __init__(self):
        self.n = 0

    def get_grad(self, x):
        self.n += 1
        self.grad = np.ones(4) * (1.0 if self.n % 2 else -1.0) * 1e-3 * self.n


seen = []


def ref(n):
    x = np.zeros(4); u = np.zeros(4); y = np.zeros(4); z = np.zeros(4)
    g = Flip(); g.get_grad(x); go = g.grad.copy()
    xi = s = t = 1.0
    beta, sb = 0.5, 0.6
    out = []
    for _ in range(n):
        g.get_grad(x)
        un = x - beta * g.grad
        tn = 0.5 * (1 + np.sqrt(1 + 4 * t ** 2))
        r, q = (t - 1) / tn, s * t / tn
        z = un + r * (un - u) + q * (un - x) - r * beta / xi * (x - z)
        xi = beta * (1 + r + q)
        xn = z / (1 + xi)
        gn = g.grad + (z - xn) / xi
        yn = x - beta * gn
        if np.vdot(-gn, yn - y) < 0:
            tn, s = 1, 1
        elif np.vdot(gn, go) < 0:
            s *= sb
        t, u, x, go, y = tn, un, xn, gn, yn
        out.append(s)
    return out, x


class Sq:
    def op(self, z, extra_factor=1.0):
        return z / (1 + extra_factor)

    def cost(self, *a, **k):
        return 0


N = 8
z4 = np.zeros(4)
alg = algorithms.POGM(z4, z4, z4, z4, Flip(), Sq(), cost=None, beta_param=0.5, sigma_bar=0.6, auto_iterate=False, progress=False)
alg.idx = 0
got = []
for _ in range(N):
    alg._update()
    got.append(alg.get_notify_observers_kwargs()["sigma"])
exp, x = ref(N)
check(min(exp) < 0.5, "scenario does not exercise two decreases")
check(close(got, exp), "sigma sequence %s instead of %s" % (got, exp))
check(close(alg.get_notify_observers_kwargs()["x_new"], x), "iterate")
''')

S('c01-fb-restart-old', 'C01', [(FB, 'self._z_new = self._x_new\n', 'self._z_new = self._x_old\n')],
  'a restart strategy and an iteration at which the restart criterion holds',
  'a restart must continue from the new iterate; it now falls back to the previous one', OPS + '''
zs = []
alg = algorithms.ForwardBackward(X0, Lin(1.9, T), Soft(0.05), cost=None, beta_param=0.5, auto_iterate=False, progress=False,
                                 restart_strategy="adaptive", xi_restart=0.9)
fired = 0
for _ in range(60):
    zo, xo = alg._z_old.copy(), alg._x_old.copy()
    alg._update()
    k = alg.get_notify_observers_kwargs()
    xn = k["x_new"]
    if np.vdot(zo - xn, xn - xo) >= 0:
        fired += 1
        check(close(k["z_new"], xn), "z after a restart is not the new iterate")
check(fired > 0, "no restart in the scenario")
''')

S('c02-cd-shift', 'C02', [(FB, '            self._t_now = (self._n + self.a_cd - 1) / self.a_cd\n            self._n += 1\n',
                           '            self._n += 1\n            self._t_now = (self._n + self.a_cd - 1) / self.a_cd\n')],
  'Chambolle-Dossal mode (a_cd given)', 'the extrapolation sequence t_n = (n + a - 1)/a is shifted by one', '''
from modopt.opt.algorithms import FISTA
f = FISTA(a_cd=20)
got = [f.update_lambda() for _ in range(6)]
t = [(n + 19.0) / 20 for n in range(6)]
prev = [1.0] + t[:-1]
exp = [1 + (p - 1) / q for p, q in zip(prev, t)]
check(close(got, exp), "lambda %s expected %s" % (got, exp))
''')

S('c02-greedy-moving-reference', 'C02', [(FB, '            if self._delta0 is None:\n                self._delta0 = self.s_greedy * cur_delta\n',
                                          '            if self._delta0 is None or cur_delta < self._delta0 / self.s_greedy:\n                self._delta0 = self.s_greedy * cur_delta\n')],
  'greedy restart and a later change smaller than the first one, followed by a larger change',
  'the safeguard compares with the first observed change; it now compares with the smallest so far', '''
from modopt.opt.algorithms import FISTA
f = FISTA(restart_strategy="greedy", min_beta=0.1, s_greedy=1.5, xi_restart=0.5)
o = np.zeros(3)
f.is_restart(o, np.ones(3), o)
f.is_restart(o, 0.1 * np.ones(3), o)
check(f.update_beta(1.0) == 1.0, "step size shrunk although the change decreased")
f.is_restart(o, 0.5 * np.ones(3), o)
check(f.update_beta(1.0) == 1.0, "step size shrunk although the change is below s times the first")
f.is_restart(o, 2 * np.ones(3), o)
check(f.update_beta(1.0) == 0.5, "step size not shrunk")
''')

S('c02-adaptive2-no-damping', 'C02', [(FB, 'if "adaptive" in self.restart_strategy:', 'if self.restart_strategy in {"adaptive", "adaptive-i", "adaptive-1"}:')],
  "restart strategy 'adaptive-ii' or 'adaptive-2' and a restart", 'the second adaptive variants must damp r as well as reset t', '''
from modopt.opt.algorithms import FISTA
o = np.zeros(3)
for s in ("adaptive", "adaptive-i", "adaptive-1", "adaptive-ii", "adaptive-2"):
    f = FISTA(restart_strategy=s, xi_restart=0.5)
    f.update_lambda()
    r = f.is_restart(np.ones(3) * 2, np.ones(3), o)
    check(bool(r), "no restart")
    f.update_lambda()
    t = f._t_now
    check(abs(f.r_lazy - 2) < 1e-12, "r not damped for " + s)
''')

S('c02-xi-none-greedy', 'C02', [(FB, '            if self.restart_strategy in {"adaptive-ii", "adaptive-2"}:', '            if self.restart_strategy in {"adaptive-ii", "adaptive-i2"}:')],
  "restart strategy 'adaptive-2' and a restart", "'adaptive-2' no longer resets t", '''
from modopt.opt.algorithms import FISTA
o = np.zeros(3)
for s in ("adaptive-ii", "adaptive-2"):
    f = FISTA(restart_strategy=s, xi_restart=0.5)
    for _ in range(4):
        f.update_lambda()
    f.is_restart(np.ones(3) * 2, np.ones(3), o)
    got = f.update_lambda()
    check(abs(got - 1.0) < 1e-12, "t not reset for %s: %s" % (s, got))
''')

S('c03-condat-early-param', 'C03', [(PD, '        self._x_new = self._rho * x_prox + (1 - self._rho) * self._x_old\n', '        self._update_param()\n        self._x_new = self._rho * x_prox + (1 - self._rho) * self._x_old\n'),
   (PD, '        # Update parameter values for next iteration.\n        self._update_param()\n', '')],
  'a rho_update rule', 'the relaxation of the iterate must use the current rho, not the one of the next iteration', OPS + '''
alg = algorithms.Condat(X0, np.ones(8), Lin(1.0, T), Soft(0.1), Soft(0.2), linear=Identity(), cost=None, rho=0.8, sigma=0.5, tau=0.4,
                        rho_update=lambda r: r * 0.5, auto_iterate=False, progress=False)
x, y, rho = X0.copy(), np.ones(8), 0.8
soft = lambda v, w: np.sign(v) * np.maximum(np.abs(v) - w, 0)
for _ in range(4):
    alg._update()
    xp = soft(x - 0.4 * (x - T) - 0.4 * y, 0.1)
    yt = y + 0.5 * (2 * xp - x)
    yp = yt - 0.5 * soft(yt / 0.5, 0.2 / 0.5)
    x, y = rho * xp + (1 - rho) * x, rho * yp + (1 - rho) * y
    rho *= 0.5
    k = alg.get_notify_observers_kwargs()
    check(close(k["x_new"], x) and close(k["y_new"], y), "iterate differs from the published update")
''')

S('c03-condat-reweight-stale', 'C03', [(PD, '            for _ in range(n_rewightings):\n                self._reweight.reweight(self._linear.op(self._x_new))\n',
                                        '            x_rw = self._linear.op(self._x_new)\n            for _ in range(n_rewightings):\n                self._reweight.reweight(x_rw)\n')],
  'at least two reweightings', 'each reweighting must use the current primal solution; the second one uses that of the first run', OPS + '''
class RW:
    def __init__(self):
        self.seen = []

    def reweight(self, data):
        self.seen.append(np.array(data))


rw = RW()
alg = algorithms.Condat(X0, np.zeros(8), Lin(1.0, T), Soft(0.1), Soft(0.2), linear=Identity(), cost=None, reweight=rw, rho=0.5,
                        sigma=0.5, tau=0.4, auto_iterate=False, progress=False)
snaps = []
orig = alg._run_alg


def spy(*a, **k):
    orig(*a, **k)
    snaps.append(alg.get_notify_observers_kwargs()["x_new"].copy())


alg._run_alg = spy
alg.iterate(max_iter=2, n_rewightings=3)
check(len(rw.seen) == 3, "number of reweightings")
for i in range(3):
    check(close(rw.seen[i], snaps[i]), "reweighting %d did not use the current solution" % i)
''')

S('c03-condat-sigma-swap', 'C03', [(PD, '            extra_factor=(1.0 / self._sigma),\n', '            extra_factor=(1.0 / max(self._sigma, 1.0)),\n')],
  'sigma below one', 'the dual proximity operator must be scaled by 1/sigma', OPS + '''
for sg in (0.25, 1.0, 4.0):
    pd = Soft(0.2)
    alg = algorithms.Condat(X0, np.zeros(8), Lin(1.0, T), Soft(0.1), pd, cost=None, sigma=sg, tau=0.4, auto_iterate=False, progress=False)
    alg._update()
    check(close(pd.factors, [1 / sg]), "dual factor for sigma=%s is %s" % (sg, pd.factors))
''')

S('c04-saga-memory', 'C04', [(GD, '        cycle = self.idx % self.epoch_size\n', '        cycle = min(self.idx, self.epoch_size - 1)\n')],
  'SAGA with more iterations than the epoch size', 'the gradient memory must be used cyclically', '''
from modopt.opt.algorithms import SAGAOptGradOpt


class G:
    def get_grad(self, x):
        self.grad = np.array(x) * 0.7 + 0.1 * len(log)
        log.append(self.grad.copy())


class P:
    def op(self, x, extra_factor=1.0):
        return x


log = []
x0 = np.arange(1.0, 5.0)
a = SAGAOptGradOpt(x0, G(), P(), None, eta=0.1, epoch_size=3, auto_iterate=False, progress=False)
x = x0.copy(); mem = np.zeros((3, 4)); d = np.zeros(4); n = 0
for i in range(8):
    a.idx = i
    a._update()
    g = log[i]
    check(close(g, x * 0.7 + 0.1 * i), "gradient point at %d" % i)
    d = d - mem[i % 3] + g
    mem[i % 3] = g
    x = x - 0.1 / (np.sqrt(np.zeros(4)) + 1e-6) * d
    check(close(a.get_notify_observers_kwargs()["dir_grad"], d), "direction at %d" % i)
''')

S('c04-adam-power', 'C04', [(GD, '        self._gamma_pow *= self._gamma\n', '        self._gamma_pow *= self._beta\n')],
  'ADAM with beta different from gamma', 'the bias correction of the speed must use powers of gamma', '''
from modopt.opt.algorithms import ADAMGradOpt


class G:
    def get_grad(self, x):
        self.grad = 2.0 * np.array(x)


class P:
    def op(self, x, extra_factor=1.0):
        return x


a = ADAMGradOpt(np.ones(3), G(), P(), None, eta=0.05, gamma=0.7, beta=0.4, progress=False)
x = np.ones(3); d = np.zeros(3); s = np.zeros(3); bp = gp = 1.0
for i in range(5):
    a.idx = i
    a._update()
    g = 2 * x
    bp *= 0.4
    gp *= 0.7
    d = (0.4 * d + 0.6 * g) / (1 - bp)
    s = (0.7 * s + 0.3 * g ** 2) / (1 - gp)
    x = x - 0.05 / (np.sqrt(s) + 1e-6) * d
    check(close(a.get_notify_observers_kwargs()["x_new"], x), "ADAM iterate %d" % i)
''')

S('c04-reset-before-reg', 'C04', [(GD, '            self.reset()\n            self._update_reg(step)\n', '            self.reset()\n            self._update_reg(self._eta)\n')],
  'a variant with adaptive speed (Adagrad, RMSprop, ADAM) and a proximity operator',
  'the proximity operator must be scaled by the step actually used', '''
from modopt.opt.algorithms import AdaGenericGradOpt, RMSpropGradOpt, VanillaGenericGradOpt


class G:
    def get_grad(self, x):
        self.grad = 2.0 * np.array(x)


class P:
    def __init__(self):
        self.f = []

    def op(self, x, extra_factor=1.0):
        self.f.append(np.array(extra_factor))
        return x


p = P()
a = AdaGenericGradOpt(np.array([1.0, 2.0, 3.0]), G(), p, None, eta=0.5, progress=False)
a.idx = 0
a._update()
check(close(p.f[0] * np.ones(3), 0.5 / (np.array([2.0, 4.0, 6.0]) + 1e-6)), "factor passed to the proximity operator")
p = P()
a = VanillaGenericGradOpt(np.array([1.0, 2.0, 3.0]), G(), p, None, eta=0.5, progress=False)
a._update()
check(close(p.f[0] * np.ones(3), 0.5), "plain factor")
''')

S('c04-momentum-reset', 'C04', [(GD, '        self._dir_grad = np.zeros_like(self._x_new)\n', '        self._dir_grad = np.zeros_like(self._dir_grad) if self.idx else self._dir_grad\n')],
  'momentum variant: second iteration when the epoch size is larger than one',
  'the direction must be reset at the first iteration of every epoch, including iteration zero', '''
from modopt.opt.algorithms import MomentumGradOpt


class G:
    def get_grad(self, x):
        self.grad = 2.0 * np.array(x)


class P:
    def op(self, x, extra_factor=1.0):
        return x


a = MomentumGradOpt(np.ones(3), G(), P(), None, eta=0.05, beta=0.5, epoch_size=3, progress=False)
x = np.ones(3); d = np.zeros(3)
for i in range(7):
    a.idx = i
    a._update()
    d = 0.5 * d + 2 * x
    x = x - 0.05 * d
    check(close(a.get_notify_observers_kwargs()["x_new"], x), "momentum iterate %d" % i)
    if i % 3 == 0:
        d = np.zeros(3)
''')

S('c05-admm-multiplier-stale', 'C05', [(AD, '            init=self._v_hat,\n', '            init=self._v_old,\n')],
  'accelerated ADMM once the extrapolated second variable differs from the last one',
  'FastADMM must start the second subproblem from the extrapolated variable', '''
from modopt.opt.algorithms import FastADMM
from modopt.opt.linear import MatrixOperator, Identity
rng = np.random.default_rng(3)
inits = []


def h(init, obs):
    return 0.3 * obs + 0.1 * init


def g(init, obs):
    inits.append(np.array(init))
    return 0.2 * obs - 0.3 * init


u = rng.random(4); v = rng.random(4); mu = rng.random(4)
alg = FastADMM(u, v, mu, Identity(), Identity(), np.zeros(4), (h, g), progress=False)
for i in range(5):
    vh = alg._v_hat.copy()
    alg._update()
    check(close(inits[-1], vh), "start of the second subproblem at %d" % i)
''')

S('c05-fastadmm-restart-vold', 'C05', [(AD, '        self.xp.copyto(self._u_old, self._u_new)\n        self.xp.copyto(self._v_old, self._v_new)\n        self.xp.copyto(self._mu_old, self._mu_new)\n',
                                        '        self._u_old, self._u_new = self._u_new, self._u_old\n        self.xp.copyto(self._v_old, self._v_new)\n        self.xp.copyto(self._mu_old, self._mu_new)\n')],
  'accelerated ADMM: reading the result after a run', 'the final first variable must be the last iterate, buffers are swapped instead of copied', '''
from modopt.opt.algorithms import FastADMM
from modopt.opt.linear import Identity
us = []


def h(init, obs):
    us.append(0.3 * obs + 0.1)
    return us[-1].copy()


def g(init, obs):
    return 0.2 * obs - 0.3


alg = FastADMM(np.ones(4), np.ones(4), np.zeros(4), Identity(), Identity(), np.zeros(4), (h, g), progress=False)
alg.iterate(max_iter=5)
check(close(alg.u_final, us[-1]), "u_final is not the last iterate")
''')

S('c05-admm-eta', 'C05', [(AD, '        if self._c_new < self._eta * self._c_old:', '        if self._c_new < self._c_old:')],
  'accelerated ADMM with a combined residual that decreases by less than the factor eta',
  'acceleration must require a decrease by the factor eta', '''
from modopt.opt.algorithms import FastADMM
from modopt.opt.linear import Identity
c = [4.0]


def h(init, obs):
    return np.zeros(1)


class A(Identity):
    pass


# mu_new - mu_hat = v_new, so the residual is tau * (|v_new|^2 + |v_new - v_hat|^2)
vals = iter([2.0, 1.9, 1.85, 1.8])


def g(init, obs):
    return np.array([next(vals)])


alg = FastADMM(np.zeros(1), np.zeros(1), np.zeros(1), Identity(), Identity(), np.zeros(1), (h, g), eta=0.2, progress=False)
alg._update()
v1 = alg._v_new.copy()
vh = alg._v_hat.copy(); vo = alg._v_old.copy(); co = alg._c_old
alg._update()
c = 1.9 ** 2 + (1.9 - vh[0]) ** 2
check(0.2 * co <= c < co, "scenario")
check(abs(alg._alpha_old - 1) < 1e-12, "no restart although the residual did not decrease by eta")
check(close(alg._v_hat, vo), "v_hat after a restart")
''')

S('c06-sticky-converge', 'C06', [(PD, '            self.converge = self.any_convergence_flag() or self._cost_func.get_cost(\n                self._x_new, self._y_new\n', '            self.converge = self.converge or self.any_convergence_flag()\n            self.converge = self.converge or self._cost_func.get_cost(\n                self._x_new, self._y_new\n')],
  'Condat with reweighting, whose first run converges before the iteration limit',
  'a converged run makes every later run stop after a single iteration', OPS + '''
class RW:
    n = 0

    def reweight(self, d):
        RW.n += 1


class C:
    """Converges at the third evaluation of each run only."""

    def __init__(self):
        self.n = 0

    cost = None

    def get_cost(self, *a, **k):
        self.n += 1
        return self.n == 3


c = C()
alg = algorithms.Condat(X0, np.zeros(8), Lin(1.0, T), Soft(0.1), Soft(0.2), cost=c, reweight=RW(), auto_iterate=False, progress=False)
alg.iterate(max_iter=10, n_rewightings=1)
check(c.n == 13, "%d iterations instead of 3 + 10" % c.n)
''')

S('c06-last-metric', 'C06', [(AB, '                    self.idx % self.metric_call_period == 0\n', '                    (self.idx + 1) % self.metric_call_period == 0\n')],
  'reading the recorded iteration indices', 'metrics must be evaluated on the iterations that are multiples of the period, not the ones before', OPS + '''
for n in (3, 7, 11):
    m = {"a": {"metric": lambda v: float(np.sum(v)), "mapping": {"x_new": "v"}, "cst_kwargs": {}, "early_stopping": False}}
    alg = algorithms.ForwardBackward(X0, Lin(1.0, T), Soft(0.1), cost=None, beta_param=0.4, metrics=m, linear=Identity(),
                                     metric_call_period=5, auto_iterate=False, progress=False)
    alg.iterate(max_iter=n)
    exp = sorted(set(list(range(0, n, 5)) + [n - 1]))
    check(list(alg.metrics["a"]["index"]) == exp, "metric iterations %s instead of %s" % (alg.metrics["a"]["index"], exp))
''')

S('c06-progbar-last', 'C06', [(AB, '            if progbar:\n                progbar.update()\n', '            if progbar and idx < max_iter - 1:\n                progbar.update()\n')] ,
  'a progress bar supplied by the user', 'the bar is not advanced for the last iteration', OPS + '''
class Bar:
    n = 0

    def update(self, k=1):
        Bar.n += k


for n in (1, 4):
    Bar.n = 0
    alg = algorithms.ForwardBackward(X0, Lin(1.0, T), Soft(0.1), cost=None, beta_param=0.4, auto_iterate=False, progress=False)
    alg.iterate(max_iter=n, progbar=Bar())
    check(Bar.n == n, "bar advanced %d times instead of %d" % (Bar.n, n))
''')

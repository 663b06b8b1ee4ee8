PROPS = ["C03"]
import numpy as np
from modopt.opt.algorithms import Condat, ForwardBackward, GenForwardBackward, POGM
from modopt.opt.algorithms.base import SetUp
from modopt.opt.algorithms.gradient_descent import (
    GenericGradOpt, VanillaGenericGradOpt, AdaGenericGradOpt, RMSpropGradOpt, MomentumGradOpt,
    ADAMGradOpt, SAGAOptGradOpt)
from modopt.opt.algorithms.admm import ADMM, FastADMM, ADMMcostObj
from modopt.opt.reweight import cwbReweight


def _metric(f, es=False, **mapping):
    return {"m": {"metric": f, "mapping": mapping, "cst_kwargs": {}, "early_stopping": es}}


def _cd(x, y, g, p, q, lin, c, **kw):
    return Condat(x, y, g, p, q, linear=lin, cost=c, auto_iterate=False, progress=False, **kw)


def _res(a):
    return a.x_final, a.y_final, a.get_notify_observers_kwargs(), a.converge


def p_condat_1(x: array, y: array, g: op, p: op, q: op, lin: op, c: op):
    a = _cd(x, y, g, p, q, lin, c)
    a.iterate(max_iter=1)
    return _res(a)


def p_condat_2(x: array, y: array, g: op, p: op, q: op, lin: op, rho: scalar, sigma: scalar,
               tau: scalar):
    a = _cd(x, y, g, p, q, lin, None, rho=rho, sigma=sigma, tau=tau)
    a.iterate(max_iter=2)
    return _res(a)


def p_condat_identity(x: array, y: array, g: op, p: op, q: op, sigma: scalar, tau: scalar):
    a = _cd(x, y, g, p, q, None, None, sigma=sigma, tau=tau)
    a.iterate(max_iter=2)
    return _res(a)


def p_condat_rules(x: array, y: array, g: op, p: op, q: op, lin: op, rho: scalar, sigma: scalar,
                   tau: scalar, ru: callable, su: callable, tu: callable):
    a = _cd(x, y, g, p, q, lin, None, rho=rho, sigma=sigma, tau=tau, rho_update=ru,
            sigma_update=su, tau_update=tu)
    a.iterate(max_iter=2)
    return _res(a)


def p_condat_step(x: array, y: array, g: op, p: op, q: op, lin: op, tau: scalar, s: scalar):
    a = _cd(x, y, g, p, q, lin, None, tau=tau, step_size=s)
    a.iterate(max_iter=1)
    return _res(a)


def p_condat_iter(x: array, y: array, g: op, p: op, q: op, lin: op, c: op, rho: scalar,
                  sigma: scalar, tau: scalar, n: int):
    a = _cd(x, y, g, p, q, lin, c, rho=rho, sigma=sigma, tau=tau)
    a.iterate(max_iter=n)
    return a.x_final, a.y_final, a.idx, a.converge


def p_condat_iter_rules(x: array, y: array, g: op, p: op, q: op, lin: op, ru: callable,
                        su: callable, tu: callable, n: int):
    a = _cd(x, y, g, p, q, lin, None, rho_update=ru, sigma_update=su, tau_update=tu)
    a.iterate(max_iter=n)
    return _res(a)


def p_condat_cost(x: array, y: array, g: op, p: op, q: op, lin: op):
    a = Condat(x, y, g, p, q, lin, auto_iterate=False, progress=False)
    a.iterate(max_iter=1)
    return _res(a)


def p_condat_reweight(x: array, y: array, g: op, p: op, q: op, lin: op, rw: op, k: int):
    a = _cd(x, y, g, p, q, lin, None, reweight=rw)
    a.iterate(max_iter=1, n_rewightings=2)
    return _res(a)


def p_condat_reweight_n(x: array, y: array, g: op, p: op, q: op, lin: op, rw: op, k: int):
    a = _cd(x, y, g, p, q, lin, None, reweight=rw)
    a.iterate(max_iter=1, n_rewightings=k)
    return _res(a)


def p_condat_reweight_real(x: array, y: array, g: op, p: op, q: op, lin: op, w: array, t: scalar):
    rw = cwbReweight(w, t)
    a = _cd(x, y, g, p, q, lin, None, reweight=rw)
    a.iterate(max_iter=1)
    return _res(a), rw.weights


def p_condat_reweight_auto(x: array, y: array, g: op, p: op, q: op, lin: op, rw: op):
    a = Condat(x, y, g, p, q, lin, None, reweight=rw, max_iter=2, n_rewightings=1,
               progress=False)
    return _res(a)


def p_condat_no_reweight(x: array, y: array, g: op, p: op, q: op, lin: op, k: int):
    a = _cd(x, y, g, p, q, lin, None)
    a.iterate(max_iter=1, n_rewightings=k)
    return _res(a)


@probe("C06", "C23")
def p_condat_progbar(x: array, y: array, g: op, p: op, q: op, lin: op, rw: op, bar: bar):
    a = _cd(x, y, g, p, q, lin, None, reweight=rw)
    a.iterate(max_iter=2, n_rewightings=1, progbar=bar)
    return a.x_final


@probe("C06")
def p_condat_auto(x: array, y: array, g: op, p: op, q: op, au: bool):
    a = Condat(x, y, g, p, q, cost=None, auto_iterate=au, progress=False, max_iter=1)
    return hasattr(a, "x_final")


@probe("C06", "C25")
def p_condat_auto_options(x: array, y: array, g: op, p: op, q: op, lin: op, c: op, rw: op, n: int,
                          k: int):
    a = Condat(x, y, g, p, q, lin, c, rw, progress=False, max_iter=n, n_rewightings=k)
    return a.x_final, a.y_final, a.idx


@probe("C06", "C25")
def p_condat_auto_rounds(x: array, y: array, g: op, p: op, q: op, lin: op, rw: op, k: int):
    a = Condat(x, y, g, p, q, lin, None, rw, progress=False, max_iter=1, n_rewightings=k)
    return a.x_final, a.y_final, a.idx


@probe("C06", "C08")
def p_condat_metrics(x: array, y: array, g: op, p: op, q: op, lin: op, f: sfn, k: int):
    a = _cd(x, y, g, p, q, lin, None, metrics=_metric(f, x_new="a", y_new="b"),
            metric_call_period=k)
    a.iterate(max_iter=3)
    return a.metrics


@probe("C06", "C08")
def p_condat_early(x: array, y: array, g: op, p: op, q: op, lin: op, f: sfn):
    a = _cd(x, y, g, p, q, lin, None, metrics=_metric(f, True, x_new="a", y_new="b"),
            metric_call_period=1)
    a.iterate(max_iter=8)
    return a.metrics, a.idx


@probe("C03", "C19")
def p_condat_valid_data(x, y, g: op, p: op, q: op):
    a = Condat(x, y, g, p, q, cost=None, auto_iterate=False)
    return a.idx


@probe("C03", "C19")
def p_condat_valid_params(x: array, y: array, g: op, p: op, q: op, rho, sigma, tau, ru, su, tu):
    a = Condat(x, y, g, p, q, cost=None, rho=rho, sigma=sigma, tau=tau, rho_update=ru,
               sigma_update=su, tau_update=tu, auto_iterate=False)
    return a.idx


@probe("C06", "C21")
def p_condat_verbose(x: array, y: array, g: op, p: op, q: op, c: op, v: bool):
    a = _cd(x, y, g, p, q, None, c, verbose=v)
    a.iterate(max_iter=2)
    return _res(a)


# --------------------------------------------------------------- gradient descent
def _gres(a):
    return a.x_final, a.get_notify_observers_kwargs(), a.converge


@probe("C04")
def p_generic(x: array, g: op, p: op, c: op, eta: scalar, eps: scalar):
    a = GenericGradOpt(x, g, p, c, eta=eta, epsilon=eps, progress=False)
    a.iterate(2)
    return _gres(a)


@probe("C04")
def p_generic_default(x: array, g: op, p: op):
    a = GenericGradOpt(x, g, p, None, progress=False)
    a.iterate(max_iter=2)
    return _gres(a)


@probe("C04")
def p_generic_epoch(x: array, g: op, p: op, e: int, eta: scalar):
    a = GenericGradOpt(x, g, p, None, epoch_size=e, eta=eta, progress=False)
    a.iterate(3)
    return _gres(a)


@probe("C04")
def p_generic_rule(x: array, g: op, p: op, eta: scalar, r: callable):
    a = GenericGradOpt(x, g, p, None, eta=eta, eta_update=r, progress=False)
    a.iterate(3)
    return _gres(a)


@probe("C04")
def p_generic_cost(x: array, g: op, p: op):
    a = GenericGradOpt(x, g, p, "auto", progress=False)
    a.iterate(2)
    return _gres(a)


@probe("C04")
def p_vanilla(x: array, g: op, p: op, c: op, eta: scalar, e: int):
    a = VanillaGenericGradOpt(x, g, p, c, eta=eta, epoch_size=e, progress=False)
    a.iterate(3)
    return _gres(a)


@probe("C04")
def p_ada(x: array, g: op, p: op, eta: scalar, eps: scalar, e: int):
    a = AdaGenericGradOpt(x, g, p, None, eta=eta, epsilon=eps, epoch_size=e, progress=False)
    a.iterate(3)
    return _gres(a)


@probe("C04")
def p_rms(x: array, g: op, p: op, eta: scalar, eps: scalar, gamma: scalar, e: int):
    a = RMSpropGradOpt(x, g, p, None, eta=eta, epsilon=eps, gamma=gamma, epoch_size=e,
                       progress=False)
    a.iterate(3)
    return _gres(a)


@probe("C04")
def p_rms_default(x: array, g: op, p: op):
    a = RMSpropGradOpt(x, g, p, None, progress=False)
    a.iterate(2)
    return _gres(a)


@probe("C04")
def p_momentum(x: array, g: op, p: op, eta: scalar, beta: scalar, e: int):
    a = MomentumGradOpt(x, g, p, None, eta=eta, beta=beta, epoch_size=e, progress=False)
    a.iterate(3)
    return _gres(a)


@probe("C04")
def p_momentum_default(x: array, g: op, p: op):
    a = MomentumGradOpt(x, g, p, None, epoch_size=5, progress=False)
    a.iterate(3)
    return _gres(a)


@probe("C04")
def p_adam(x: array, g: op, p: op, eta: scalar, eps: scalar, beta: scalar, gamma: scalar, e: int):
    a = ADAMGradOpt(x, g, p, None, eta=eta, epsilon=eps, beta=beta, gamma=gamma, epoch_size=e,
                    progress=False)
    a.iterate(2)
    return _gres(a)


@probe("C04")
def p_adam_default(x: array, g: op, p: op):
    a = ADAMGradOpt(x, g, p, None, progress=False)
    a.iterate(2)
    return _gres(a)


@probe("C04")
def p_saga(x: array, g: op, p: op, eta: scalar):
    a = SAGAOptGradOpt(x, g, p, None, eta=eta, epoch_size=2, progress=False)
    a.iterate(5)
    return _gres(a)


@probe("C04")
def p_saga_any(x: array, g: op, p: op, e: int, eps: scalar):
    a = SAGAOptGradOpt(x, g, p, None, epoch_size=e, epsilon=eps, progress=False)
    a.iterate(2)
    return _gres(a)


@probe("C04", "C06")
def p_generic_iter(x: array, g: op, p: op, c: op, eta: scalar, e: int, n: int, r: callable):
    a = GenericGradOpt(x, g, p, c, eta=eta, epoch_size=e, eta_update=r, progress=False)
    a.iterate(n)
    return a.x_final, a.idx, a.converge


@probe("C04", "C06")
def p_ada_iter(x: array, g: op, p: op, e: int, n: int):
    a = AdaGenericGradOpt(x, g, p, None, epoch_size=e, progress=False)
    a.iterate(n)
    return _gres(a)


@probe("C04", "C06")
def p_rms_iter(x: array, g: op, p: op, gamma: scalar, e: int, n: int):
    a = RMSpropGradOpt(x, g, p, None, epoch_size=e, gamma=gamma, progress=False)
    a.iterate(n)
    return _gres(a)


@probe("C04", "C06")
def p_momentum_iter(x: array, g: op, p: op, beta: scalar, e: int, n: int):
    a = MomentumGradOpt(x, g, p, None, epoch_size=e, beta=beta, progress=False)
    a.iterate(n)
    return _gres(a)


@probe("C04", "C06")
def p_adam_iter(x: array, g: op, p: op, beta: scalar, gamma: scalar, e: int, n: int):
    a = ADAMGradOpt(x, g, p, None, epoch_size=e, beta=beta, gamma=gamma, progress=False)
    a.iterate(n)
    return _gres(a)


@probe("C04", "C06")
def p_saga_iter(x: array, g: op, p: op, e: int, n: int):
    a = SAGAOptGradOpt(x, g, p, None, epoch_size=e, progress=False)
    a.iterate(n)
    return _gres(a)


@probe("C04", "C19")
def p_grad_valid(x, g: op, p: op, eta, r, eps):
    a = GenericGradOpt(x, g, p, None, eta=eta, eta_update=r, epsilon=eps)
    return a.idx


@probe("C04", "C19")
def p_grad_valid_rms(x: array, g: op, p: op, gamma):
    return RMSpropGradOpt(x, g, p, None, gamma=gamma).idx


@probe("C04", "C19")
def p_grad_valid_momentum(x: array, g: op, p: op, beta):
    return MomentumGradOpt(x, g, p, None, beta=beta).idx


@probe("C04", "C19")
def p_grad_valid_adam(x: array, g: op, p: op, gamma, beta):
    return ADAMGradOpt(x, g, p, None, gamma=gamma, beta=beta).idx


@probe("C06", "C08")
def p_grad_metrics(x: array, g: op, p: op, f: sfn, k: int):
    a = GenericGradOpt(x, g, p, None, metrics=_metric(
        f, x_new="x", dir_grad="d", speed_grad="s"), metric_call_period=k, progress=False)
    a.iterate(3)
    return a.metrics


@probe("C06", "C21")
def p_grad_verbose(x: array, g: op, p: op, c: op, v: bool):
    a = GenericGradOpt(x, g, p, c, verbose=v, progress=False)
    a.iterate(2)
    return _gres(a)


# --------------------------------------------------------------- ADMM
def _ares(a):
    return (a.u_final, a.x_final, a.v_final, a.get_notify_observers_kwargs(), a.converge,
            PEEK(a, "_mu_new"))


@probe("C05", known=["admm-subproblem-obs"])
def p_admm_1(u: array, v: array, m: array, A: op, B: op, b: array, H: afn, G: afn):
    a = ADMM(u, v, m, A, B, b, (H, G), progress=False)
    a.iterate(1)
    return _ares(a)


@probe("C05", known=["admm-subproblem-obs"])
def p_admm_2(u: array, v: array, m: array, A: op, B: op, b: array, H: afn, G: afn, t: scalar,
             f: sfn, g: sfn):
    a = ADMM(u, v, m, A, B, b, (H, G), tau=t, cost_funcs=(f, g), progress=False)
    a.iterate(max_iter=2)
    return _ares(a)


@probe("C05")
def p_admm_start(u: array, v: array, m: array, A: op, B: op, b: array):
    first = []
    second = []

    def H(init, obs):
        first.append(np.copy(init))
        return init * 2

    def G(init, obs):
        second.append(np.copy(init))
        return init * 3
    a = ADMM(u, v, m, A, B, b, (H, G), progress=False)
    a.iterate(max_iter=3)
    return _ares(a), first, second


@probe("C05", "C06", known=["admm-subproblem-obs"])
def p_admm_iter(u: array, v: array, m: array, A: op, B: op, b: array, H: afn, G: afn, n: int):
    a = ADMM(u, v, m, A, B, b, (H, G), progress=False)
    a.iterate(max_iter=n)
    return _ares(a), a.idx


@probe("C05")
def p_admm_mult(u: array, v: array, m: array, A: op, B: op, b: array, w: array, z: array):
    def H(init, obs):
        return w

    def G(init, obs):
        return z

    a = ADMM(u, v, m, A, B, b, (H, G), progress=False)
    a.iterate(max_iter=2)
    return _ares(a)


@probe("C05")
def p_admm_cost(f: sfn, g: sfn, A: op, B: op, b: array, t: scalar, u: array, v: array):
    c = ADMMcostObj((f, g), A, B, b, t, verbose=False)
    return c.get_cost(u, v), c.cost


@probe("C05", "C07")
def p_admm_cost_opts(f: sfn, g: sfn, A: op, B: op, b: array, t: scalar, u: array, v: array,
                     e: scalar):
    c = ADMMcostObj((f, g), A, B, b, t, initial_cost=e, tolerance=e, cost_interval=2,
                    test_range=2, verbose=True)
    r = c.get_cost(u, v)
    return r, c.get_cost(v, u), c.cost


@probe("C05")
def p_fast_start(u: array, v: array, m: array, A: op, B: op, b: array, al: scalar, eta: scalar,
                 t: scalar):
    first = []
    second = []

    def H(init, obs):
        first.append(np.copy(init))
        return init * 2

    def G(init, obs):
        second.append(np.copy(init))
        return init * 3
    a = FastADMM(u, v, m, A, B, b, (H, G), alpha=al, eta=eta, tau=t, progress=False)
    a.iterate(max_iter=3)
    return _ares(a), first, second


@probe("C05", known=["admm-subproblem-obs"])
def p_fast_1(u: array, v: array, m: array, A: op, B: op, b: array, H: afn, G: afn, f: sfn,
             g: sfn):
    a = FastADMM(u, v, m, A, B, b, (H, G), cost_funcs=(f, g), progress=False)
    a.iterate(1)
    return _ares(a)


@probe("C05", known=["admm-subproblem-obs"])
def p_fast_2(u: array, v: array, m: array, A: op, B: op, b: array, H: afn, G: afn, al: scalar,
             eta: scalar, t: scalar):
    a = FastADMM(u, v, m, A, B, b, (H, G), alpha=al, eta=eta, tau=t, progress=False)
    a.iterate(2)
    return _ares(a)


@probe("C05", known=["admm-subproblem-obs"])
def p_fast_3(u: array, v: array, m: array, A: op, B: op, b: array, H: afn, G: afn):
    a = FastADMM(u, v, m, A, B, b, (H, G), progress=False)
    a.iterate(3)
    return _ares(a)


@probe("C05", "C06", known=["admm-subproblem-obs"])
def p_fast_iter(u: array, v: array, m: array, A: op, B: op, b: array, H: afn, G: afn, n: int):
    a = FastADMM(u, v, m, A, B, b, (H, G), progress=False)
    a.iterate(n)
    return _ares(a), a.idx


@probe("C06", "C08", known=["admm-subproblem-obs"])
def p_admm_metrics(u: array, v: array, m: array, A: op, B: op, b: array, H: afn, G: afn, f: sfn,
                   k: int):
    a = ADMM(u, v, m, A, B, b, (H, G), metrics=_metric(f, x_new="x", v_new="v"),
             metric_call_period=k, progress=False)
    a.iterate(3)
    return a.metrics


@probe("C06", "C21", known=["admm-subproblem-obs"])
def p_admm_verbose(u: array, v: array, m: array, A: op, B: op, b: array, H: afn, G: afn, f: sfn,
                   g: sfn, vb: bool):
    a = ADMM(u, v, m, A, B, b, (H, G), cost_funcs=(f, g), verbose=vb, progress=False)
    a.iterate(2)
    return _ares(a)


# --------------------------------------------------------------- iteration control
class Dummy(GenericGradOpt):
    """A user-defined solver: records its updates and converges when told to."""

    def __init__(self, x, stop, seen, **kw):
        super().__init__(x, None, None, None, **kw)
        self.stop = stop
        self.seen = seen

    def _update(self):
        self.seen.append(self.idx)
        self.converge = self.stop(self.idx)

    def get_notify_observers_kwargs(self):
        return {"x_new": self.idx, "idx": self.idx}


@probe("C06")
def p_loop(x: array, stop: callable, n: int):
    seen = []
    a = Dummy(x, stop, seen, progress=False)
    a.iterate(n)
    return a.idx, a.converge, seen


@probe("C06", "C21")
def p_loop_3(x: array, stop: callable, v: bool):
    seen = []
    a = Dummy(x, stop, seen, progress=False, verbose=v)
    a.iterate(3)
    return a.idx, a.converge, seen


@probe("C06")
def p_loop_0(x: array, stop: callable):
    seen = []
    a = Dummy(x, stop, seen, progress=False)
    a.iterate(0)
    return a.idx, a.converge, seen


@probe("C06")
def p_loop_twice(x: array, stop: callable):
    seen = []
    a = Dummy(x, stop, seen, progress=False)
    a.iterate(2)
    a.iterate(2)
    return a.idx, a.converge, seen


@probe("C06", "C23")
def p_loop_own_bar(x: array, stop: callable):
    seen = []
    a = Dummy(x, stop, seen)
    a.iterate(3)
    return a.idx, a.converge, seen


@probe("C06", "C23")
def p_loop_bar(x: array, g: op, p: op, c: op, bar: bar, n: int):
    a = ForwardBackward(x, g, p, cost=c, auto_iterate=False, lambda_update=None)
    a.iterate(3, bar)
    return a.idx, a.converge, a.x_final


@probe("C06", "C23")
def p_loop_bar2(x: array, g: op, p: op, c: op, bar: bar):
    a = ForwardBackward(x, g, p, cost=c, auto_iterate=False, lambda_update=None, progress=False)
    a.iterate(3, progbar=bar)
    return a.idx, a.converge, a.x_final


@probe("C06", "C23")
def p_loop_bar_gfb(x: array, g: op, p: op, c: op, bar: bar):
    a = GenForwardBackward(x, g, [p], cost=c, auto_iterate=False, progress=False)
    a.iterate(2, progbar=bar)
    return a.idx, a.converge, a.x_final


@probe("C06", "C23")
def p_loop_bar_pogm(x: array, g: op, p: op, c: op, bar: bar):
    a = POGM(x, x, x, x, g, p, cost=c, auto_iterate=False, progress=False)
    a.iterate(2, progbar=bar)
    return a.idx, a.converge, a.x_final


class _Flagged:
    def __init__(self, name, flag):
        self.name = name
        self.converge_flag = flag

    def __call__(self, signal):
        return None


@probe("C06", "C08")
def p_flags(f1: bool, f2: bool, f3: bool):
    a = SetUp()
    r = [a.any_convergence_flag()]
    for name, flag in (("a", f1), ("b", f2), ("c", f3)):
        a.add_observer("cv_metrics", _Flagged(name, flag))
        r.append(a.any_convergence_flag())
    return r


def _log(f, log):
    def metric(x):
        log.append(x)
        return f(x)
    return metric


@probe("C06", "C08")
def p_loop_metrics(x: array, stop: callable, f: sfn, k: int):
    seen = []
    a = Dummy(x, stop, seen, progress=False, metric_call_period=k,
              metrics=_metric(_log(f, seen), x_new="x"))
    a.iterate(4)
    return a.idx, seen, a.metrics


@probe("C06", "C08")
def p_loop_no_period(x: array, stop: callable, f: sfn):
    seen = []
    a = Dummy(x, stop, seen, progress=False, metric_call_period=None,
              metrics=_metric(_log(f, seen), x_new="x"))
    a.iterate(2)
    return a.idx, seen, a.metrics


@probe("C06", "C25")
def p_loop_progress(x: array, stop: callable, pr: bool):
    seen = []
    a = Dummy(x, stop, seen, progress=pr)
    a.iterate(2)
    return a.idx, seen, a.progress


def _refused(f):
    try:
        return f()
    except TypeError:
        return "TypeError"


@probe("C06", "C19")
def p_setup_metrics(s: str, x: array, f: callable, i: int, li: list):
    return [_refused(lambda: SetUp(metrics=m).metrics) for m in (None, {}, s, x, f, i, li, True)]


@probe("C06")
def p_setup_default():
    a = SetUp()
    return a.idx, a.converge, a.verbose, a.metrics, a.metric_call_period, a.any_convergence_flag()


@probe("C06", "C08")
def p_setup_two_metrics(x: array, stop: callable, f: sfn, g: sfn, c):
    seen = []

    def first(**kw):
        seen.append(("first", kw))
        return f(1)

    def second(**kw):
        seen.append(("second", kw))
        return g(2)
    a = Dummy(x, stop, seen, progress=False, metrics={
        "a": {"metric": first, "mapping": {"x_new": "p"}, "cst_kwargs": {"c": c},
              "early_stopping": False},
        "b": {"metric": second, "mapping": {"x_new": "q"}, "cst_kwargs": {},
              "early_stopping": True}}, metric_call_period=1)
    a.iterate(2)
    return seen, a.metrics, a.any_convergence_flag()


@probe("C23", "C19")
def p_setup_abstract():
    return SetUp().get_notify_observers_kwargs()


@probe("C06", "C22", env="free")
def p_setup_backend(b: str, x: array):
    a = SetUp(compute_backend=b)
    return a.compute_backend, a.copy_data(x)

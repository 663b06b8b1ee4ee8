PROPS = ["C01"]
import numpy as np
from modopt.opt.algorithms import ForwardBackward, GenForwardBackward, POGM
from modopt.opt.algorithms.forward_backward import FISTA, SetUp


def _fb(x, g, p, c, **kw):
    return ForwardBackward(x, g, p, cost=c, auto_iterate=False, progress=False, **kw)


def p_fb_1(x: array, g: op, p: op, c: op):
    a = _fb(x, g, p, c)
    a.iterate(max_iter=1)
    return a.x_final, a.get_notify_observers_kwargs(), a.converge, a.idx


def p_fb_2(x: array, g: op, p: op, c: op, lin: op):
    a = _fb(x, g, p, c, linear=lin)
    a.iterate(max_iter=2)
    return a.x_final, a.get_notify_observers_kwargs(), a.converge, a.idx


def p_fb_3_plain(x: array, g: op, p: op, b: scalar, l: scalar):
    a = _fb(x, g, p, None, beta_param=b, lambda_param=l, lambda_update=None)
    a.iterate(max_iter=3)
    return a.x_final, a.get_notify_observers_kwargs()


def p_fb_rules(x: array, g: op, p: op, b: scalar, l: scalar, bu: callable, lu: callable):
    a = _fb(x, g, p, None, beta_param=b, lambda_param=l, beta_update=bu, lambda_update=lu)
    a.iterate(max_iter=3)
    return a.x_final, a.get_notify_observers_kwargs()


@probe("C01", "C02", "C25")
def p_fb_rule_fista(x: array, g: op, p: op, b: scalar, bu: callable):
    a = _fb(x, g, p, None, beta_param=b, beta_update=bu)
    a.iterate(max_iter=3)
    return a.x_final, a.get_notify_observers_kwargs()


@probe("C01", "C02", "C25")
def p_fb_rule_greedy(x: array, g: op, p: op, b: scalar, bu: callable, mb: scalar, xi: scalar):
    a = _fb(x, g, p, None, beta_param=b, beta_update=bu, restart_strategy="greedy", s_greedy=1.5,
            min_beta=mb, xi_restart=xi)
    a.iterate(max_iter=3)
    return a.x_final


def p_fb_step_size(x: array, g: op, p: op, b: scalar, s: scalar):
    a = _fb(x, g, p, None, beta_param=b, step_size=s, lambda_update=None)
    a.iterate(max_iter=2)
    return a.x_final


def p_fb_iter(x: array, g: op, p: op, c: op, n: int, b: scalar):
    a = _fb(x, g, p, c, beta_param=b)
    a.iterate(max_iter=n)
    return a.x_final, a.idx, a.converge


def p_fb_iter_rules(x: array, g: op, p: op, n: int, b: scalar, l: scalar, bu: callable, lu: callable):
    a = _fb(x, g, p, None, beta_param=b, lambda_param=l, beta_update=bu, lambda_update=lu)
    a.iterate(max_iter=n)
    return a.x_final, a.get_notify_observers_kwargs()


def p_fb_resume(x: array, g: op, p: op, b: scalar):
    a = _fb(x, g, p, None, beta_param=b)
    a.iterate(max_iter=1)
    r = a.x_final
    a.iterate(max_iter=1)
    return r, a.x_final, a.get_notify_observers_kwargs()


def p_fb_auto_cost(x: array, g: op, p: op):
    a = ForwardBackward(x, g, p, auto_iterate=False, progress=False)
    a.iterate(max_iter=2)
    return a.x_final, a.converge, a.get_notify_observers_kwargs()


def p_fb_linear(x: array, g: op, p: op, lin: op):
    a = _fb(x, g, p, None, linear=lin)
    a.iterate(max_iter=1)
    return a.get_notify_observers_kwargs()


def p_fb_lambda_param(x: array, g: op, p: op, l: scalar):
    a = _fb(x, g, p, None, lambda_param=l)
    a.iterate(max_iter=3)
    return a.x_final, a.get_notify_observers_kwargs()


@probe("C01", "C02")
def p_fb_cd(x: array, g: op, p: op, acd: scalar):
    a = _fb(x, g, p, None, a_cd=acd)
    a.iterate(max_iter=3)
    return a.x_final, a.get_notify_observers_kwargs()


@probe("C01", "C02")
def p_fb_lazy(x: array, g: op, p: op, pl: scalar, ql: scalar, rl: scalar):
    a = _fb(x, g, p, None, p_lazy=pl, q_lazy=ql, r_lazy=rl)
    a.iterate(max_iter=3)
    return a.x_final, a.get_notify_observers_kwargs()


@probe("C01", "C02")
def p_fb_restart(x: array, g: op, p: op, xi: scalar):
    a = _fb(x, g, p, None, restart_strategy="adaptive", xi_restart=xi)
    a.iterate(max_iter=3)
    return a.x_final, a.get_notify_observers_kwargs()


@probe("C01", "C02")
def p_fb_restart2(x: array, g: op, p: op, xi: scalar):
    a = _fb(x, g, p, None, restart_strategy="adaptive-ii", xi_restart=xi)
    a.iterate(max_iter=3)
    return a.x_final, a.get_notify_observers_kwargs()


@probe("C01", "C02")
def p_fb_greedy(x: array, g: op, p: op, b: scalar, xi: scalar, mb: scalar, s: scalar):
    a = _fb(x, g, p, None, restart_strategy="greedy", xi_restart=xi, min_beta=mb, s_greedy=s,
            beta_param=b)
    a.iterate(max_iter=3)
    return a.x_final, a.get_notify_observers_kwargs()


@probe("C01", "C02")
def p_fb_any_strategy(x: array, g: op, p: op, st: str, xi: scalar, mb: scalar, s: scalar):
    a = _fb(x, g, p, None, restart_strategy=st, xi_restart=xi, min_beta=mb, s_greedy=s)
    a.iterate(max_iter=2)
    return a.x_final, a.get_notify_observers_kwargs()


@probe("C01", "C19")
def p_fb_valid_data(x, g: op, p: op):
    a = ForwardBackward(x, g, p, cost=None, auto_iterate=False)
    return a.idx


@probe("C01", "C19")
def p_fb_valid_params(x: array, g: op, p: op, b, l, bu, lu):
    a = ForwardBackward(x, g, p, cost=None, beta_param=b, lambda_param=l, beta_update=bu,
                        lambda_update=lu, auto_iterate=False)
    return a.idx


@probe("C06", "C19")
def p_fb_valid_metrics(x: array, g: op, p: op, lin: op):
    def m(test):
        return test
    a = ForwardBackward(x, g, p, cost=None, auto_iterate=False, metrics={
        "m": {"metric": m, "mapping": {"x_new": "test"}, "cst_kwargs": {}, "early_stopping": False}})
    return a.idx


@probe("C06")
def p_fb_auto(x: array, g: op, p: op, au: bool):
    a = ForwardBackward(x, g, p, cost=None, auto_iterate=au, progress=False)
    return hasattr(a, "x_final")


def _metric(f, es=False, period=1):
    return {"m": {"metric": f, "mapping": {"x_new": "test", "z_new": None}, "cst_kwargs": {},
                  "early_stopping": es}}


@probe("C06", "C08")
def p_fb_metrics(x: array, g: op, p: op, lin: op, f: sfn, k: int):
    a = _fb(x, g, p, None, metrics=_metric(f), linear=lin, metric_call_period=k)
    a.iterate(max_iter=3)
    return a.metrics, a.x_final


@probe("C06", "C08")
def p_fb_metrics_default(x: array, g: op, p: op, lin: op, f: sfn):
    a = _fb(x, g, p, None, metrics=_metric(f), linear=lin)
    a.iterate(max_iter=7)
    return a.metrics


@probe("C06", "C08")
def p_fb_metrics_early(x: array, g: op, p: op, f: sfn, lin: op):
    a = _fb(x, g, p, None, metrics=_metric(f, True), linear=lin, metric_call_period=1,
            lambda_update=None)
    a.iterate(max_iter=8)
    return a.metrics, a.idx, a.converge


@probe("C06")
def p_fb_converge(x: array, g: op, p: op, c: op):
    a = _fb(x, g, p, c)
    a.iterate(max_iter=3)
    return a.idx, a.converge, a.x_final


@probe("C06", "C21")
def p_fb_verbose(x: array, g: op, p: op, c: op, v: bool):
    a = _fb(x, g, p, c, verbose=v)
    a.iterate(max_iter=2)
    return a.idx, a.x_final


@probe("C06", "C19")
def p_metrics_without_linear(x: array, g: op, p: op, f: sfn):
    return ([_built(lambda: _gfb(x, g, [p], None, metrics=m)) for m in (None, {}, _metric(f))],
            [_built(lambda: _fb(x, g, p, None, metrics=m)) for m in (None, {}, _metric(f))],
            [_built(lambda: _pogm(x, x, x, x, g, p, None, metrics=m))
             for m in (None, {}, _metric(f))])


def _built(make):
    try:
        make()
    except ValueError:
        return False
    return True


# ---------------------------------------------------------------- generalised
def _gfb(x, g, ps, c, **kw):
    return GenForwardBackward(x, g, ps, cost=c, auto_iterate=False, progress=False, **kw)


def p_gfb_1(x: array, g: op, p: op, q: op, c: op):
    a = _gfb(x, g, [p, q], c)
    a.iterate(max_iter=1)
    return a.x_final, a.get_notify_observers_kwargs(), a.converge


def p_gfb_2(x: array, g: op, p: op, q: op, w: scalar, v: scalar, ga: scalar, la: scalar):
    a = _gfb(x, g, [p, q], None, weights=[w, v], gamma_param=ga, lambda_param=la)
    a.iterate(max_iter=2)
    return a.x_final, a.get_notify_observers_kwargs()


def p_gfb_rules(x: array, g: op, p: op, q: op, ga: scalar, la: scalar, gu: callable, lu: callable):
    a = _gfb(x, g, [p, q], None, gamma_param=ga, lambda_param=la, gamma_update=gu,
             lambda_update=lu)
    a.iterate(max_iter=2)
    return a.x_final, a.get_notify_observers_kwargs()


def p_gfb_step(x: array, g: op, p: op, q: op, ga: scalar, s: scalar):
    a = _gfb(x, g, [p, q], None, gamma_param=ga, step_size=s)
    a.iterate(max_iter=2)
    return a.x_final


def p_gfb_three(x: array, g: op, p: op, q: op, r: op):
    a = _gfb(x, g, [p, q, r], None)
    a.iterate(max_iter=1)
    return a.x_final


def p_gfb_iter(x: array, g: op, p: op, q: op, c: op, n: int, ga: scalar):
    a = _gfb(x, g, [p, q], c, gamma_param=ga)
    a.iterate(max_iter=n)
    return a.x_final, a.idx, a.converge


def p_gfb_list(x: array, g: op, ps: oplist, ga: scalar):
    a = _gfb(x, g, ps, None, gamma_param=ga)
    a.iterate(max_iter=1)
    return a.x_final


def p_gfb_cost(x: array, g: op, p: op, q: op):
    a = GenForwardBackward(x, g, [p, q], auto_iterate=False, progress=False)
    a.iterate(max_iter=2)
    return a.x_final, a.converge


def p_gfb_linear(x: array, g: op, p: op, lin: op):
    a = _gfb(x, g, [p], None, linear=lin)
    a.iterate(max_iter=1)
    return a.get_notify_observers_kwargs()


@probe("C01", "C19")
def p_gfb_weights_any(x: array, g: op, p: op, q: op, w):
    a = _gfb(x, g, [p, q], None, weights=w)
    a.iterate(max_iter=1)
    return a.x_final


@probe("C01", "C19")
def p_gfb_valid(x, g: op, p: op, ga, la, gu, lu):
    a = _gfb(x, g, [p], None, gamma_param=ga, lambda_param=la, gamma_update=gu, lambda_update=lu)
    return a.idx


@probe("C06")
def p_gfb_auto(x: array, g: op, p: op, au: bool):
    a = GenForwardBackward(x, g, [p], cost=None, auto_iterate=au, progress=False)
    return hasattr(a, "x_final")


@probe("C06", "C08")
def p_gfb_metrics(x: array, g: op, p: op, lin: op, f: sfn, k: int):
    a = _gfb(x, g, [p], None, metrics=_metric(f), linear=lin, metric_call_period=k)
    a.iterate(max_iter=3)
    return a.metrics, a.x_final


# ---------------------------------------------------------------- POGM
def _pogm(u, x, y, z, g, p, c, **kw):
    return POGM(u, x, y, z, g, p, cost=c, auto_iterate=False, progress=False, **kw)


def p_pogm_1(u: array, x: array, y: array, z: array, g: op, p: op, c: op):
    a = _pogm(u, x, y, z, g, p, c)
    a.iterate(max_iter=1)
    return a.x_final, a.get_notify_observers_kwargs(), a.converge


def p_pogm_2(u: array, x: array, y: array, z: array, g: op, p: op, b: scalar, s: scalar):
    a = _pogm(u, x, y, z, g, p, None, beta_param=b, sigma_bar=s)
    a.iterate(max_iter=2)
    return a.x_final, a.get_notify_observers_kwargs()


def p_pogm_3(u: array, x: array, y: array, z: array, g: op, p: op, lin: op):
    a = _pogm(u, x, y, z, g, p, None, linear=lin)
    a.iterate(max_iter=3)
    return a.x_final


def p_pogm_step(u: array, x: array, y: array, z: array, g: op, p: op, b: scalar, s: scalar):
    a = _pogm(u, x, y, z, g, p, None, beta_param=b, step_size=s)
    a.iterate(max_iter=1)
    return a.x_final, a.get_notify_observers_kwargs()


def p_pogm_iter(u: array, x: array, y: array, z: array, g: op, p: op, c: op, n: int, b: scalar,
                s: scalar):
    a = _pogm(u, x, y, z, g, p, c, beta_param=b, sigma_bar=s)
    a.iterate(max_iter=n)
    return a.x_final, a.idx, a.converge


def p_pogm_cost(u: array, x: array, y: array, z: array, g: op, p: op):
    a = POGM(u, x, y, z, g, p, auto_iterate=False, progress=False)
    a.iterate(max_iter=1)
    return a.x_final, a.converge


def p_pogm_linear(u: array, x: array, y: array, z: array, g: op, p: op, lin: op):
    a = _pogm(u, x, y, z, g, p, None, linear=lin)
    a.iterate(max_iter=1)
    return a.get_notify_observers_kwargs()


@probe("C01", "C19")
def p_pogm_valid(u, x, y, z, g: op, p: op, b, s):
    a = POGM(u, x, y, z, g, p, cost=None, beta_param=b, sigma_bar=s, auto_iterate=False)
    return a.idx


@probe("C06")
def p_pogm_auto(u: array, x: array, y: array, z: array, g: op, p: op, au: bool):
    a = POGM(u, x, y, z, g, p, cost=None, auto_iterate=au, progress=False)
    return hasattr(a, "x_final")


@probe("C06", "C08")
def p_pogm_metrics(u: array, x: array, y: array, z: array, g: op, p: op, lin: op, f: sfn, k: int):
    a = _pogm(u, x, y, z, g, p, None, metrics=_metric(f), linear=lin, metric_call_period=k)
    a.iterate(max_iter=3)
    return a.metrics


# ---------------------------------------------------------------- FISTA rules
@probe("C02")
def p_fista_lambda(pl: scalar, ql: scalar, rl: scalar, l):
    f = FISTA(p_lazy=pl, q_lazy=ql, r_lazy=rl)
    return f.update_lambda(l), f.update_lambda(l), f.update_lambda()


@probe("C02")
def p_fista_default():
    f = FISTA()
    return f.update_lambda(), f.update_lambda(), f.update_lambda(), f.mode, f.restart_strategy


@probe("C02")
def p_fista_cd(a: scalar):
    f = FISTA(a_cd=a)
    return f.update_lambda(1.0), f.update_lambda(1.0), f.update_lambda(1.0), f.mode


@probe("C02")
def p_fista_step(st, acd, pl: scalar, ql: scalar, rl: scalar, xi: scalar, mb: scalar, s: scalar,
                 z: array, x: array, w: array, b: scalar):
    f = FISTA(st, mb, s, xi, acd, pl, ql, rl)
    return f.is_restart(z, x, w), f.update_beta(b), f.update_lambda(), f.is_restart(
        x, z, w), f.update_beta(b), f.update_lambda()


class _Valid(FISTA, SetUp):
    pass


@probe("C02", "C19")
def p_fista_params(st, acd, xi, mb, s):
    f = FISTA(restart_strategy=st, a_cd=acd, xi_restart=xi, min_beta=mb, s_greedy=s)
    return f.mode, f.restart_strategy


@probe("C02")
def p_fista_adaptive(xi: scalar, rl: scalar, z: array, x: array, w: array):
    f = FISTA(restart_strategy="adaptive-i", xi_restart=xi, r_lazy=rl)
    a = f.update_lambda()
    r = f.is_restart(z, x, w)
    return a, r, f.update_lambda(), f.is_restart(w, x, z), f.update_lambda(), f.update_beta(rl)


@probe("C02")
def p_fista_adaptive2(xi: scalar, rl: scalar, z: array, x: array, w: array):
    f = FISTA(restart_strategy="adaptive-2", xi_restart=xi, r_lazy=rl)
    a = f.update_lambda()
    r = f.is_restart(z, x, w)
    return a, r, f.update_lambda(), f.is_restart(w, x, z), f.update_lambda()


@probe("C02")
def p_fista_greedy(xi: scalar, mb: scalar, s: scalar, z: array, x: array, w: array, b: scalar):
    f = FISTA(restart_strategy="greedy", xi_restart=xi, min_beta=mb, s_greedy=s)
    return f.update_lambda(), f.is_restart(z, x, w), f.update_beta(b), f.is_restart(
        w, x, z), f.update_beta(b), f.is_restart(x, z, w), f.update_beta(b), f.update_lambda()


@probe("C02")
def p_fista_havoc(st: str, xi: scalar, mb: scalar, s: scalar, rl: scalar, z: array, x: array,
                  w: array, b: scalar):
    f = FISTA(restart_strategy=st, xi_restart=xi, min_beta=mb, s_greedy=s, r_lazy=rl)

    def step():
        f.is_restart(w, z, x)
        f.update_beta(b)
        f.update_lambda()
    HAVOC(step)
    return f.is_restart(z, x, w), f.update_beta(b), f.update_lambda()


@probe("C02")
def p_fista_none(z: array, x: array, w: array, b: scalar, n: int):
    f = FISTA()
    for i in range(n):
        f.update_lambda()
    return f.is_restart(z, x, w), f.update_beta(b), f.update_lambda()

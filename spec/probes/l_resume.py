PROPS = ["C06"]
import numpy as np
from modopt.opt.algorithms import Condat, ForwardBackward, GenForwardBackward, POGM
from modopt.opt.algorithms.gradient_descent import (
    GenericGradOpt, AdaGenericGradOpt, RMSpropGradOpt, MomentumGradOpt, ADAMGradOpt,
    SAGAOptGradOpt)
from modopt.opt.algorithms.admm import ADMM, FastADMM
from modopt.base.observable import Observable, MetricObserver


# a solver iterated again carries on from its state

@probe("C01", "C06")
def p_resume_fb(x: array, g: op, p: op, c: op, b: scalar):
    a = ForwardBackward(x, g, p, cost=c, beta_param=b, auto_iterate=False, progress=False)
    a.iterate(1)
    r = a.x_final, a.idx, a.converge
    a.iterate(2)
    return r, a.x_final, a.idx, a.converge


@probe("C01", "C06")
def p_resume_gfb(x: array, g: op, p: op, q: op, c: op, ga: scalar):
    a = GenForwardBackward(x, g, [p, q], cost=c, gamma_param=ga, auto_iterate=False,
                           progress=False)
    a.iterate(1)
    r = a.x_final, a.idx, a.converge
    a.iterate(2)
    return r, a.x_final, a.idx, a.converge


@probe("C01", "C06")
def p_resume_pogm(x: array, g: op, p: op, c: op):
    a = POGM(x, x, x, x, g, p, cost=c, auto_iterate=False, progress=False)
    a.iterate(1)
    r = a.x_final, a.idx, a.converge
    a.iterate(2)
    return r, a.x_final, a.idx, a.converge


@probe("C03", "C06")
def p_resume_condat(x: array, y: array, g: op, p: op, q: op, lin: op, c: op):
    a = Condat(x, y, g, p, q, linear=lin, cost=c, auto_iterate=False, progress=False)
    a.iterate(1)
    r = a.x_final, a.y_final, a.idx, a.converge
    a.iterate(2)
    return r, a.x_final, a.y_final, a.idx, a.converge


@probe("C04", "C06")
def p_resume_generic(x: array, g: op, p: op, c: op):
    a = GenericGradOpt(x, g, p, c, epoch_size=2, progress=False)
    a.iterate(1)
    r = a.x_final, a.idx, a.converge
    a.iterate(2)
    return r, a.x_final, a.idx, a.converge


@probe("C04", "C06")
def p_resume_adam(x: array, g: op, p: op):
    a = ADAMGradOpt(x, g, p, None, epoch_size=2, progress=False)
    a.iterate(1)
    r = a.x_final
    a.iterate(2)
    return r, a.x_final, a.idx


@probe("C04", "C06")
def p_resume_saga(x: array, g: op, p: op):
    a = SAGAOptGradOpt(x, g, p, None, epoch_size=2, progress=False)
    a.iterate(1)
    r = a.x_final
    a.iterate(2)
    return r, a.x_final, a.idx


@probe("C05", "C06", known=["admm-subproblem-obs"])
def p_resume_admm(u: array, v: array, m: array, A: op, B: op, b: array, H: afn, G: afn,
                  f: sfn, k: sfn):
    a = ADMM(u, v, m, A, B, b, (H, G), cost_funcs=(f, k), progress=False)
    a.iterate(1)
    r = a.u_final, a.v_final, a.idx, a.converge
    a.iterate(2)
    return r, a.u_final, a.v_final, a.idx, a.converge


@probe("C05", "C06", known=["admm-subproblem-obs"])
def p_resume_fastadmm(u: array, v: array, m: array, A: op, B: op, b: array, H: afn, G: afn):
    a = FastADMM(u, v, m, A, B, b, (H, G), progress=False)
    a.iterate(1)
    r = a.u_final, a.v_final, a.idx
    a.iterate(2)
    return r, a.u_final, a.v_final, a.idx


@probe("C06", "C08")
def p_resume_metrics(x: array, g: op, p: op, f: sfn, k: int):
    a = ForwardBackward(x, g, p, cost=None, lambda_update=None, auto_iterate=False,
                        progress=False, metric_call_period=k, metrics={
                            "m": {"metric": f, "mapping": {"x_new": "test"}, "cst_kwargs": {},
                                  "early_stopping": False}})
    a.iterate(2)
    a.iterate(1)
    return a.metrics, a.x_final


@probe("C08", "C09")
def p_metric_dict(f: sfn, c, x, k: int):
    kw = {"ref": c}
    mp = {"x_new": "test"}
    mo = MetricObserver("m", f, mp, kw, 1, 1e-3)
    o = Observable(["s"])
    o.add_observer("s", mo)
    o.notify_observers("s", x_new=x, idx=k)
    o.notify_observers("s", x_new=c, idx=k)
    return kw, mp, mo.list_cv_values


# asked for no iterations, a solver reports where it starts

@probe("C06", "C23")
def p_none_fb(x: array, g: op, p: op, c: op):
    a = ForwardBackward(x, g, p, cost=c, auto_iterate=False, progress=False)
    a.iterate(0)
    return a.x_final, a.converge, a.metrics


@probe("C06", "C23")
def p_none_gfb(x: array, g: op, p: op, q: op, c: op):
    a = GenForwardBackward(x, g, [p, q], cost=c, auto_iterate=False, progress=False)
    a.iterate(0)
    return a.x_final, a.converge, a.metrics


@probe("C06", "C23")
def p_none_pogm(u: array, x: array, y: array, z: array, g: op, p: op, c: op):
    a = POGM(u, x, y, z, g, p, cost=c, auto_iterate=False, progress=False)
    a.iterate(0)
    return a.x_final, a.converge, a.metrics


@probe("C06", "C23")
def p_none_condat(x: array, y: array, g: op, p: op, q: op, lin: op, c: op):
    a = Condat(x, y, g, p, q, lin, c, auto_iterate=False, progress=False)
    a.iterate(0)
    return a.x_final, a.y_final, a.converge, a.metrics


@probe("C06", "C23")
def p_none_condat_reweight(x: array, y: array, g: op, p: op, q: op, lin: op, rw: op, n: int):
    a = Condat(x, y, g, p, q, lin, None, rw, auto_iterate=False, progress=False)
    a.iterate(0, n)
    return a.x_final, a.y_final, a.metrics


@probe("C06", "C23")
def p_none_grad(x: array, g: op, p: op, c: op):
    a = GenericGradOpt(x, g, p, c, progress=False)
    a.iterate(0)
    return a.x_final, a.converge, a.metrics


@probe("C06", "C23")
def p_none_admm(u: array, v: array, mu: array, A: op, B: op, b: array, f: callable, h: callable):
    a = ADMM(u, v, mu, A, B, b, (f, h), progress=False)
    a.iterate(0)
    return a.u_final, a.v_final, a.x_final, a.converge, a.metrics


@probe("C06", "C23")
def p_none_fast_admm(u: array, v: array, mu: array, A: op, B: op, b: array, f: callable,
                     h: callable):
    a = FastADMM(u, v, mu, A, B, b, (f, h), progress=False)
    a.iterate(0)
    return a.u_final, a.v_final, a.x_final, a.converge, a.metrics

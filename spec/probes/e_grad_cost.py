PROPS = ["C12"]
import numpy as np
from modopt.opt.gradient import GradParent, GradBasic
from modopt.opt.cost import CostParent, costObj
from modopt.opt.reweight import cwbReweight
from modopt.plot.cost_plot import plotCost


def p_basic(y: array, a: afn, at: afn, x: array):
    g = GradBasic(y, a, at)
    g.get_grad(x)
    return g.grad, g.cost(x), g.obs_data, y.flags.writeable


def p_basic_verbose(y: array, a: afn, at: afn, x: array, v):
    g = GradBasic(y, a, at, verbose=v)
    return g.cost(x, verbose=v)


def p_basic_type(y: array, a: afn, at: afn, x: array, w):
    g = GradBasic(y, a, at, data_type=float, input_data_writeable=w)
    g.get_grad(x)
    return g.grad, g.cost(x), g.obs_data


def p_basic_any(y, a, at, d, w, v):
    g = GradBasic(y, a, at, data_type=d, input_data_writeable=w, verbose=v)
    return g.obs_data


def p_basic_flags(y: array, z: array, a: afn, at: afn, d, w: bool, v: bool):
    GradBasic(y, a, at, data_type=d, input_data_writeable=w, verbose=v)
    GradParent(z, a, at, data_type=d, input_data_writeable=w, verbose=v)
    return y.flags.writeable, z.flags.writeable


def p_basic_twice(y: array, a: afn, at: afn, x: array, z: array):
    g = GradBasic(y, a, at)
    g.get_grad(x)
    r = g.grad
    g.get_grad(z)
    return r, g.grad, g.cost(x), g.cost(z), g.trans_op_op(z)


def p_parent(y: array, a: afn, at: afn, gg: afn, c: sfn, x: array):
    g = GradParent(y, a, at, get_grad=gg, cost=c)
    return g.get_grad(x), g.cost(x), g.op(x), g.trans_op(x), g.trans_op_op(x), g.obs_data


def p_parent_any(y, a, at, gg, c, d, w, v):
    g = GradParent(y, a, at, gg, c, d, w, v)
    return g.op, g.trans_op, g.obs_data


def p_parent_default(y: array, a: afn, at: afn):
    g = GradParent(y, a, at)
    return hasattr(g, "_get_grad"), hasattr(g, "_cost"), g.verbose, y.flags.writeable


def p_parent_basic_opts(y: array, a: afn, at: afn, gg: afn, c: sfn, x: array):
    g = GradBasic(y, a, at, gg, c)
    g.get_grad(x)
    return g.grad, g.cost(x)


def p_parent_set(y: array, a: afn, at: afn, f):
    g = GradParent(y, a, at)
    g.op = f
    return g.op


def p_parent_set2(y: array, a: afn, at: afn, f):
    g = GradParent(y, a, at)
    g.trans_op = f
    return g.trans_op


def p_parent_set3(y: array, a: afn, at: afn, f):
    g = GradParent(y, a, at)
    g.get_grad = f
    return g.get_grad


def p_parent_set4(y: array, a: afn, at: afn, f):
    g = GradParent(y, a, at)
    g.cost = f
    return g.cost


def p_parent_grad(y: array, a: afn, at: afn, v: array, d):
    g = GradParent(y, a, at, data_type=d)
    g.grad = v
    return g.grad


def p_parent_grad_f(y: array, a: afn, at: afn, v):
    g = GradParent(y, a, at, data_type=np.floating)
    g.grad = v
    h = GradParent(y, a, at)
    h.grad = v
    return g.grad, h.grad


def p_parent_obs(y: array, a: afn, at: afn, z, d):
    g = GradParent(y, a, at, data_type=d)
    g.obs_data = z
    return g.obs_data


# ------------------------------------------------------------------ cost
class Cost1(CostParent):
    def _calc_cost(self, x, *args, **kwargs):
        return EXTERN("calc", x, kwargs["verbose"])


def _cost_state(c):
    return c.cost, PEEK(c, "_cost_list")


@probe("C07")
def p_cost_total(o1: op, o2: op, o3: op, x: array):
    c = costObj([o1, o2, o3], verbose=False)
    r = c.get_cost(x)
    return r, _cost_state(c)


@probe("C07")
def p_cost_verbose(o1: op, x: array, v):
    c = costObj([o1], verbose=v)
    r = c.get_cost(x)
    return r, _cost_state(c)


@probe("C07")
def p_cost_default(o1: op, x: array):
    c = costObj([o1])
    return c.cost, PEEK(c, "_cost_list"), c.get_cost(x)


@probe("C07")
def p_cost_oplist(ops: oplist, x: array, y: array):
    c = costObj(ops, verbose=False)
    return c.get_cost(x, y), c.cost


@probe("C07")
def p_cost_kwargs(o1: op, o2: op, x: array, z):
    c = costObj((o1, o2), verbose=False)
    return c.get_cost(x, extra=z), c.cost


@probe("C07", "C19")
def p_cost_ops_any(ops, i, t, n, r, v, p):
    c = costObj(ops, initial_cost=i, tolerance=t, cost_interval=n, test_range=r, verbose=v, plot_output=p)
    return c.cost


@probe("C07", "C19")
def p_cost_ops_list(a, b):
    c = costObj([a, b])
    return c.cost


@probe("C07")
def p_cost_none():
    c = costObj(None)
    return c.cost


@probe("C07")
def p_cost_window4(x1: array, x2: array, x3: array, x4: array, x5: array, t: scalar, v):
    c = Cost1(initial_cost=7, tolerance=t, verbose=v)
    r1 = c.get_cost(x1)
    r2 = c.get_cost(x2)
    r3 = c.get_cost(x3)
    r4 = c.get_cost(x4)
    r5 = c.get_cost(x5)
    return r1, r2, r3, r4, r5, _cost_state(c)


@probe("C07")
def p_cost_window_two_rounds(x1: array, x2: array, x3: array, x4: array, t: scalar):
    c = Cost1(tolerance=t, test_range=2, verbose=False)
    return c.get_cost(x1), c.get_cost(x2), c.get_cost(x3), c.get_cost(x4), _cost_state(c)


@probe("C07")
def p_cost_window3(x1: array, x2: array, x3: array, x4: array, t: scalar):
    c = Cost1(tolerance=t, test_range=3, verbose=False)
    return c.get_cost(x1), c.get_cost(x2), c.get_cost(x3), c.get_cost(x4), _cost_state(c)


@probe("C07")
def p_cost_interval2(x1: array, x2: array, x3: array, x4: array, x5: array, t: scalar):
    c = Cost1(tolerance=t, cost_interval=2, test_range=2, verbose=False)
    return (c.get_cost(x1), c.get_cost(x2), c.get_cost(x3), c.get_cost(x4), c.get_cost(x5),
            _cost_state(c))


@probe("C07")
def p_cost_interval3(x1: array, x2: array, x3: array, x4: array, v):
    c = Cost1(cost_interval=3, verbose=v)
    return c.get_cost(x1), c.get_cost(x2), c.get_cost(x3), c.get_cost(x4), _cost_state(c)


@probe("C07")
def p_cost_interval_sym(x1: array, x2: array, n: int):
    c = Cost1(cost_interval=n, verbose=False)
    return c.get_cost(x1), c.get_cost(x2), _cost_state(c)


@probe("C07")
def p_cost_interval_none(x1: array, x2: array):
    c = Cost1(cost_interval=None, verbose=False)
    return c.get_cost(x1), c.get_cost(x2), _cost_state(c)


@probe("C07")
def p_cost_step(x1: array, n: int, r: int, t: scalar, i: scalar, v):
    c = Cost1(initial_cost=i, tolerance=t, cost_interval=n, test_range=r, verbose=v)
    HAVOC(lambda: c.get_cost(x1))
    return c.get_cost(x1), _cost_state(c), PEEK(c, "_iteration"), PEEK(c, "_test_list")


@probe("C07", "C25")
def p_cost_defaults(x: array):
    c = Cost1()
    return c.cost, PEEK(c, "_cost_list"), c.get_cost(x)


@probe("C07")
def p_cost_plot(x1: array, x2: array, p):
    c = Cost1(verbose=False, plot_output=p)
    c.get_cost(x1)
    c.get_cost(x2)
    c.plot_cost()


@probe("C07", "C22", env="free")
def p_plot(x, p):
    return plotCost(x, p)


@probe("C07")
def p_plot_default(x: list):
    return plotCost(x)


# ------------------------------------------------------------------ reweighting
@probe("C26")
def p_rw(w: array, x: array, k: scalar):
    r = cwbReweight(w, thresh_factor=k)
    r.reweight(x)
    return r.weights, r.original_weights, w, PEEK(r, "_rw_num")


@probe("C26")
def p_rw_twice(w: array, x: array, y: array, k: scalar, v):
    r = cwbReweight(w, k, v)
    r.reweight(x)
    r.reweight(y)
    return r.weights, r.original_weights, w, PEEK(r, "_rw_num")


@probe("C26")
def p_rw_default(w: array, x: array):
    r = cwbReweight(w)
    r.reweight(x)
    r.reweight(x)
    return r.weights


@probe("C26", "C19")
def p_rw_any(w, x, k, v):
    r = cwbReweight(w, thresh_factor=k, verbose=v)
    r.reweight(x)
    return r.weights


@probe("C26")
def p_rw_refused(w: array, x: array, y: array):
    r = cwbReweight(w)
    try:
        r.reweight(x)
    except ValueError:
        pass
    return r.weights, PEEK(r, "_rw_num"), w


@probe("C26")
def p_rw_shared(w: array, x: array):
    r = cwbReweight(w)
    q = cwbReweight(w)
    r.reweight(x)
    q.reweight(x)
    return r.weights, q.weights, w


@probe("C26")
def p_rw_list(w: list, x: list, k: int):
    r = cwbReweight(w, k)
    r.reweight(x)
    return r.weights, w

PROPS = ["C11"]
# results of successive calls do not depend on one another
import numpy as np
from modopt.opt.linear import LinearParent, Identity, MatrixOperator, LinearCombo, WaveletConvolve, WaveletTransform
from modopt.opt.linear import wavelet as wv
from modopt.opt.proximity import (Positivity, LinearCompositionProx, ProximityCombo,
                                  LowRankMatrix, SparseThreshold)
from modopt.opt.gradient import GradBasic
from modopt.opt.cost import costObj
from modopt.opt.reweight import cwbReweight
from modopt.math import stats, metrics, matrix
from modopt.math.convolve import convolve, convolve_stack
from modopt.signal.filter import gaussian_filter, mex_hat, mex_hat_dir
from modopt.signal import svd, wavelet as sw
from modopt.base import transform as tr, np_adjust as na


def p_combo_twice(o1: op, o2: op, x: array, y: array, u: array, v: array):
    c = LinearCombo([o1, o2])
    a = c.op(y)
    b = c.adj_op([u, v])
    return a, c.op(x), b, c.adj_op([x, y])


def p_combo_w_twice(o1: op, o2: op, x: array, y: array, u: array, v: array, w: array):
    c = LinearCombo([o1, o2], w)
    a = c.op(y)
    b = c.adj_op([u, v])
    return a, c.op(x), b, c.adj_op([x, y])


def p_matrix_twice(m: array, x: array, y: array):
    p = MatrixOperator(m)
    a = p.op(y), p.adj_op(y)
    return a, p.op(x), p.adj_op(x)


def p_identity_twice(x, y):
    p = Identity()
    a = p.op(y), p.adj_op(y)
    return a, p.op(x), p.adj_op(x)


def p_prox_combo_twice(p1: op, p2: op, x: array, y: array, u: array, v: array, e: scalar):
    p = ProximityCombo([p1, p2])
    a = p.op([u, v], extra_factor=e)
    c = p.cost([u, v])
    return a, c, p.op([x, y]), p.cost([x, y])


def p_compose_twice(l: op, p: op, x: array, y: array, e: scalar):
    c = LinearCompositionProx(l, p)
    a = c.op(y, extra_factor=e), c.cost(y)
    return a, c.op(x), c.cost(x)


@probe("C10")
def p_positivity_twice(x: array, y: array):
    p = Positivity()
    a = p.op(y)
    return a, p.op(x)


@probe("C14")
def p_lowrank_twice(x: array, y: array, t: scalar, e: scalar):
    p = LowRankMatrix(t)
    a = p.op(y, extra_factor=e)
    return a, p.op(x), p.cost(y), p.cost(x)


@probe("C16")
def p_wconvolve_twice(x: array, y: array, f: array):
    w = WaveletConvolve(f)
    a = w.op(y), w.adj_op(y)
    return a, w.op(x), w.adj_op(x)


@probe("C16")
def p_wt_twice(x: array, y: array, n: str, a: int, b: int):
    w = WaveletTransform(n, (a, b))
    c = w.op(y)
    r = w.adj_op(c)
    d = w.op(x)
    return c, r, d, w.adj_op(d)


@probe("C16")
def p_wt_two(x: array, y: array, n: str, a: int, b: int, l: int):
    w = WaveletTransform(n, (a, b), level=l)
    v = WaveletTransform(n, (b, a), mode="zero")
    c = w.op(y)
    d = v.op(x)
    return c, d, v.adj_op(d), w.adj_op(c)


@probe("C16")
def p_wt_batch_twice(x: array, y: array, n: str):
    w = WaveletTransform(n, (4, 4), n_batch=2)
    c = w.op(y)
    r = w.adj_op(c)
    d = w.op(x)
    return c, r, d, w.adj_op(d)


@probe("C16")
def p_torch_twice(x: array, y: array, w: str, a: int, b: int):
    t = wv.TorchWaveletTransform((a, b), w, 2, "zero")
    c = t.op(y)
    return c, t.op(x)


@probe("C12")
def p_grad_twice(y: array, z: array, a: afn, at: afn, x: array, u: array):
    g = GradBasic(y, a, at)
    p = g.trans_op_op(u)
    g.get_grad(u)
    first, c = g.grad, g.cost(u)
    q = g.trans_op_op(x)
    g.get_grad(x)
    second, d = g.grad, g.cost(x)
    g.obs_data = z
    g.get_grad(x)
    return p, q, first, c, second, d, g.grad, g.cost(x)


@probe("C12")
def p_grad_two(y: array, z: array, a: afn, at: afn, x: array, u: array):
    g = GradBasic(y, a, at)
    h = GradBasic(z, at, a)
    g.get_grad(x)
    h.get_grad(u)
    return g.grad, h.grad, g.cost(x), h.cost(u), g.obs_data, h.obs_data


@probe("C11")
def p_combo_two(o1: op, o2: op, o3: op, x: array, y: array, w: array):
    c = LinearCombo([o1, o2])
    d = LinearCombo([o3, o1], w)
    a = c.op(x)
    b = d.op(x)
    return a, b, c.adj_op([x, y]), d.adj_op([x, y])


@probe("C10")
def p_sparse_two(l: op, m: op, w: array, u: array, x: array, y: array):
    p = SparseThreshold(l, w)
    q = SparseThreshold(m, u, thresh_type="hard")
    a = p.op(x)
    b = q.op(y)
    return a, b, p.op(y), q.op(x), p.cost(x), q.cost(y), p.weights, q.weights


@probe("C26")
def p_rw_two(w: array, u: array, x: array, y: array, k: scalar):
    a = cwbReweight(w, k)
    b = cwbReweight(u)
    a.reweight(x)
    b.reweight(y)
    return a.weights, b.weights


@probe("C16")
def p_convolve_twice(x: array, k: array, y: array, l: array):
    a = convolve(x, k)
    b = convolve(y, l)
    return a, b


@probe("C16")
def p_convolve_stack_twice(x: array, k: array, y: array, l: array):
    a = convolve_stack(x, k)
    b = convolve_stack(y, l)
    return a, b, convolve_stack(x, l, rot_kernel=True)


@probe("C16")
def p_filter_convolve_twice(x: array, f: array, y: array, g: array):
    a = sw.filter_convolve(x, f)
    b = sw.filter_convolve(y, g)
    return a, b, sw.filter_convolve(x, g, filter_rot=True)


@probe("C18")
def p_kernel_twice(shape, s: scalar, size, t: scalar):
    a = stats.gaussian_kernel(shape, s)
    b = stats.gaussian_kernel(shape, t)
    return a, b, stats.gaussian_kernel(size, s, norm="sum")


@probe("C13")
def p_filters_twice(x: array, s: scalar, y: array, t: scalar):
    a = gaussian_filter(x, s), mex_hat(x, s), mex_hat_dir(x, y, s)
    b = gaussian_filter(y, t, norm=False), mex_hat(y, t), mex_hat_dir(y, x, t)
    return a, b


@probe("C17")
def p_matrix_helpers_twice(x: array, y: array, u: array, v: array, a: scalar, b: scalar):
    r = matrix.nuclear_norm(x), matrix.project(u, v), matrix.rot_matrix(a)
    return r, matrix.nuclear_norm(y), matrix.project(v, u), matrix.rot_matrix(b)


@probe("C17")
def p_rotate_twice(m: array, n: array, a: scalar, b: scalar):
    r = matrix.rotate(m, a)
    return r, matrix.rotate(n, b)


@probe("C17", "C20")
def p_power_two(f: afn, g: afn, s, t, seed: int):
    p = matrix.PowerMethod(f, s, auto_run=False, rng=np.random.default_rng(seed))
    q = matrix.PowerMethod(g, t, auto_run=False, rng=np.random.default_rng(seed))
    p.get_spec_rad(max_iter=1)
    q.get_spec_rad(max_iter=1)
    return p.spec_rad, p.inv_spec_rad, q.spec_rad, q.inv_spec_rad


@probe("C15")
def p_layout_twice(x: array, y: array):
    a = tr.cube2map(x, (2, 2)), tr.cube2matrix(x), tr.map2cube(x, (2, 2)), tr.map2matrix(x, (2, 2))
    b = tr.cube2map(y, (2, 2)), tr.cube2matrix(y), tr.map2cube(y, (2, 2)), tr.map2matrix(y, (2, 2))
    return a, b, tr.matrix2cube(x, (2, 2)), tr.matrix2cube(y, (2, 2))


@probe("C15")
def p_pad_twice(x: array, y: array):
    a = na.pad2d(x, (1, 1)), na.ftr(x), na.ftl(x), na.rotate(x)
    return a, na.pad2d(y, (1, 1)), na.ftr(y), na.ftl(y), na.rotate(y)


@probe("C14")
def p_svd_twice(x: array, y: array, t: scalar, n: int):
    a = svd.svd_thresh(x, t)
    b = svd.svd_thresh(y, t, thresh_type="soft")
    return a, b


@probe("C07")
def p_cost_two(p: op, q: op, x: array, y: array):
    a = costObj([p], verbose=False)
    b = costObj([q, p], verbose=False)
    a.get_cost(x)
    b.get_cost(y)
    a.get_cost(y)
    return a.cost, b.cost

PROPS = ["C11"]
import numpy as np
from modopt.opt.linear import LinearParent, Identity, MatrixOperator, LinearCombo, WaveletConvolve, WaveletTransform
from modopt.opt.linear import wavelet as wv
from modopt.signal import wavelet as sw


@probe("C19")
def p_parent(f, g):
    p = LinearParent(f, g)
    return p.op, p.adj_op


@probe("C19")
def p_parent_set(f: afn, g: afn, h, x: array):
    p = LinearParent(f, g)
    a = p.op(x), p.adj_op(x)
    p.op = h
    return a, p.op, p.adj_op


@probe("C19")
def p_parent_set2(f: afn, g: afn, h):
    p = LinearParent(f, g)
    p.adj_op = h
    return p.op, p.adj_op


def p_identity(x, v):
    p = Identity()
    return p.op(x), p.adj_op(x), p.cost(x), p.cost(x, verbose=v), p.cost()


def p_matrix(m: array, x: array):
    p = MatrixOperator(m)
    return p.op(x), p.adj_op(x)


def p_matrix_real(m: array, x: array):
    ASSUME(not np.any(np.iscomplex(m)))
    p = MatrixOperator(m)
    return p.op(x), p.adj_op(x)


def p_combo(o1: op, o2: op, o3: op, x: array, y: array, z: array):
    c = LinearCombo([o1, o2, o3])
    return c.op(x), c.adj_op([x, y, z]), c.weights


def p_combo_w(o1: op, o2: op, x: array, y: array, w1: scalar, w2: scalar):
    c = LinearCombo([o1, o2], [w1, w2])
    return c.op(x), c.adj_op([x, y])


def p_combo_wa(o1: op, o2: op, x: array, y: array, w: array):
    c = LinearCombo([o1, o2], weights=w)
    return c.op(x), c.adj_op([x, y]), c.weights


def p_combo_list(os: oplist, x: array, y: array):
    c = LinearCombo(os)
    return c.op(x), c.adj_op(y)


def p_combo_list_w(os: oplist, x: array, y: array, w: array):
    c = LinearCombo(os, w)
    return c.op(x), c.adj_op(y)


@probe("C11", "C19")
def p_combo_any(os, w):
    c = LinearCombo(os, w)
    return c.operators, c.weights


@probe("C11", "C19")
def p_combo_any1(os):
    c = LinearCombo(os)
    return c.operators, c.weights


@probe("C11", "C19")
def p_combo_empty(o1: op):
    return LinearCombo([])


@probe("C11", "C19")
def p_combo_emptyw(o1: op):
    return LinearCombo([o1], [])


@probe("C11", "C19")
def p_combo_intw(o1: op, k: int):
    return LinearCombo([o1], [k])


@probe("C11", "C19")
def p_combo_wnum(o1: op, o2: op, w1: scalar):
    return LinearCombo([o1, o2], [w1])


@probe("C11", "C19")
def p_combo_tuple(o1: op, o2: op, w1: scalar, w2: scalar, x: array, y: array):
    return LinearCombo((o1, o2), (w1, w2)).adj_op((x, y))


@probe("C11", "C19")
def p_combo_one(o):
    c = LinearCombo([o])
    return c.operators


@probe("C11", "C19")
def p_combo_member(o: op, f, g):
    o.op = f
    o.adj_op = g
    c = LinearCombo([o])
    return o.op, o.adj_op


# ------------------------------------------------------------------ wavelets
@probe("C16")
def p_filter_convolve(x: array, f: array, r, m):
    return sw.filter_convolve(x, f), sw.filter_convolve(x, f, filter_rot=r, method=m)


@probe("C16")
def p_filter_convolve_d(x: array, f: array):
    return sw.filter_convolve(x, f), sw.filter_convolve(x, f, True), sw.filter_convolve(x, f, False, "astropy")


@probe("C16")
def p_filter_convolve_stack(x: array, f: array, r, m):
    return sw.filter_convolve_stack(x, f), sw.filter_convolve_stack(x, f, filter_rot=r, method=m)


@probe("C16")
def p_filter_convolve_stack_rot(x: array, f: array):
    return sw.filter_convolve_stack(x, f, True), sw.filter_convolve_stack(x, f, True, "astropy")


@probe("C16")
def p_wconvolve(x: array, f: array):
    w = WaveletConvolve(f)
    return w.op(x), w.adj_op(x)


@probe("C16")
def p_wconvolve_m(x: array, f: array, m: str):
    w = WaveletConvolve(f, method=m)
    return w.op(x), w.adj_op(x)


@probe("C16", "C19")
def p_wconvolve_any(f):
    w = WaveletConvolve(f)
    return PEEK(w, "_filters")


@probe("C16")
def p_wt2(x: array, n: str, a: int, b: int):
    w = WaveletTransform(n, (a, b))
    c = w.op(x)
    return c, w.adj_op(c), w.coeffs_shape


@probe("C16")
def p_wt2_opts(x: array, n: str, a: int, b: int, l: int, m: str):
    w = WaveletTransform(n, (a, b), level=l, mode=m)
    c = w.op(x)
    return c, w.adj_op(c), w.coeffs_shape


@probe("C16", "C23")
def p_wt2_adj_first(x: array, n: str, a: int, b: int, l: int, m: str):
    w = WaveletTransform(n, (a, b), level=l, mode=m)
    return w.adj_op(x)


@probe("C16", "C23")
def p_wt1_adj_first(x: array, n: str, a: int):
    return WaveletTransform(n, a).adj_op(x)


@probe("C16", "C23")
def p_wt_batch_adj_first(x: array, n: str, a: int, b: int):
    return WaveletTransform(n, (a, b), n_batch=3).adj_op(x)


@probe("C16")
def p_wt1(x: array, n: str, a: int, l: int, m: str):
    w = WaveletTransform(n, a, l, m)
    c = w.op(x)
    return c, w.adj_op(c), w.coeffs_shape


@probe("C16")
def p_wt1t(x: array, n: str, a: int, l: int, m: str):
    w = WaveletTransform(n, (a,), l, m, "numpy")
    c = w.op(x)
    return c, w.adj_op(c)


@probe("C16")
def p_wt_batch(x: array, n: str, a: int, b: int, l: int, m: str, k: int, j: int, be: str):
    w = WaveletTransform(n, (a, b), level=l, mode=m, n_batch=3, n_jobs=j, backend=be)
    c = w.op(x)
    return c, w.adj_op(c), w.operator.n_jobs, w.operator.n_batch


@probe("C16")
def p_wt_batchk(x: array, n: str, a: int, b: int, k: int):
    w = WaveletTransform(n, (a, b), n_batch=k)
    c = w.op(x)
    return c, w.adj_op(c)


@probe("C16")
def p_wt_jobs(n: str, a: int, b: int, j: int):
    w = WaveletTransform(n, (a, b), n_jobs=j)
    return w.operator.n_jobs


@probe("C16", "C19")
def p_wt_undec(n: str, a: int, b: int, d):
    w = WaveletTransform(n, (a, b), decimated=d)
    return w.operator.level


@probe("C16", "C19", "C22")
def p_wt_backend(n: str, a: int, b: int, be: str):
    w = WaveletTransform(n, (a, b), compute_backend=be)
    return w.operator.level, w.operator.mode


@probe("C16", "C19", "C22", env="free")
def p_wt_backend_free(n: str, a: int, b: int, be: str, x: array):
    w = WaveletTransform(n, (a, b), compute_backend=be)
    return w.operator.level, w.operator.mode, w.operator.shape, w.operator.wavelet


@probe("C16", "C22", env="free")
def p_cpu_free(n: str, a: int, b: int):
    w = wv.CPUWaveletTransform(n, (a, b))
    return w.level, w.mode, w.shape


@probe("C16")
def p_torch2(x: array, w: str, l: int, m: str, a: int, b: int):
    t = wv.TorchWaveletTransform((a, b), w, l, m)
    return t.op(x)


@probe("C16")
def p_torch3(x: array, w: str, l: int, m: str, a: int, b: int, c: int):
    t = wv.TorchWaveletTransform(shape=(a, b, c), wavelet=w, level=l, mode=m)
    return t.op(x)


@probe("C16")
def p_torch2a(x: list, w: str, l: int, m: str, a: int, b: int):
    t = wv.TorchWaveletTransform((a, b), w, l, m)
    return t.adj_op(x)


@probe("C16")
def p_torch3a(x: list, w: str, l: int, m: str, a: int, b: int, c: int):
    t = wv.TorchWaveletTransform((a, b, c), w, l, m)
    return t.adj_op(x)


@probe("C16", "C22", env="free")
def p_torch_free(w: str, l: int, m: str, a: int, b: int):
    t = wv.TorchWaveletTransform((a, b), w, l, m)
    return t.level, t.wavelet, t.mode


@probe("C16", "C22", env="free")
def p_cupy_free(w: str, l: int, m: str, a: int, b: int, x: array):
    t = wv.CupyWaveletTransform((a, b), w, l, m)
    return t.op(x)


@probe("C16", "C22", env="free")
def p_cupy_free_adj(w: str, l: int, m: str, a: int, b: int, x: array, c: list):
    t = wv.CupyWaveletTransform((a, b), w, l, m)
    t.coeffs_shape = c
    return t.adj_op(x)


@probe("C16")
def p_wt_default(n: str):
    w = WaveletTransform(n, (8, 8))
    return w.operator.level, w.operator.mode, w.operator.n_jobs, w.operator.n_batch, w.operator.backend


@probe("C16", "C24")
def p_trim(f: array):
    return sw.trim_filter(f)

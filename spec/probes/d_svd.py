PROPS = ["C14"]
from modopt.signal import svd


def p_find_n_pc(u: array):
    return svd.find_n_pc(u)


def p_find_n_pc_f(u: array, f: scalar):
    return svd.find_n_pc(u, factor=f)


def p_calc(x):
    return svd.calculate_svd(x)


def p_calc_a(x: array):
    return svd.calculate_svd(x)


def p_svd_thresh_default(x: array):
    return svd.svd_thresh(x)


def p_svd_thresh_t(x: array, t: scalar, k):
    return svd.svd_thresh(x, threshold=t, thresh_type=k)


def p_svd_thresh_n(x: array, n: int):
    return svd.svd_thresh(x, n_pc=n)


def p_svd_thresh_all(x: array):
    return svd.svd_thresh(x, n_pc="all", thresh_type="soft")


def p_svd_thresh_any(x, t, n, k):
    return svd.svd_thresh(x, t, n, k)


def p_coef(x: array, f: afn, t: scalar):
    return svd.svd_thresh_coef(x, f, t)


def p_coef_arr(x: array, f: afn, t: array):
    return svd.svd_thresh_coef(x, f, t)


def p_coef_any(x: array, f, t, k):
    return svd.svd_thresh_coef(x, f, t, thresh_type=k)


def p_coef_pos(x: array, f: afn, t):
    return svd.svd_thresh_coef(x, f, t, "soft")


def p_fast(x: array, t: scalar):
    return svd.svd_thresh_coef_fast(x, t)


def p_fast_opts(x: array, t: scalar, n: int, e: int, k):
    return svd.svd_thresh_coef_fast(x, t, n_vals=n, extra_vals=e, thresh_type=k)

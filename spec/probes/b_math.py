PROPS = ["C18"]
import numpy as np
from modopt.math import stats, metrics, matrix
from modopt.math.convolve import convolve, convolve_stack


def p_gaussian_kernel(shape, s: scalar):
    return stats.gaussian_kernel(shape, s)


def p_gaussian_kernel_norm(shape, s: scalar, n):
    return stats.gaussian_kernel(shape, s, norm=n)


@probe("C18", "C22", env="free")
def p_gaussian_kernel_free(shape, s: scalar, n):
    return stats.gaussian_kernel(shape, s, n)


def p_mad(x: array):
    return stats.mad(x), stats.sigma_mad(x)


def p_mse(x: array, y: array):
    return stats.mse(x, y)


def p_psnr_default(x: array, y: array):
    return stats.psnr(x, y)


def p_psnr_wiki(x: array, y: array):
    return stats.psnr(x, y, method="wiki")


def p_psnr(x: array, y: array, m, p: scalar):
    return stats.psnr(x, y, method=m, max_pix=p)


def p_psnr_stack(x: array, y: array):
    return stats.psnr_stack(x, y)


def p_psnr_stack_opt(x: array, y: array, f: sfn, m):
    return stats.psnr_stack(x, y, metric=f, method=m)


def p_min_max(x: array):
    return metrics.min_max_normalize(x)


def p_ssim(x: array, y: array):
    return metrics.ssim(x, y)


def p_ssim_mask(x: array, y: array, m: array):
    return metrics.ssim(x, y, mask=m)


def p_ssim_any(x: array, y: array, m):
    return metrics.ssim(x, y, m)


@probe("C18", "C22", env="free")
def p_ssim_free(x: array, y: array, m: array):
    return metrics.ssim(x, y, m)


def p_snr(x: array, y: array, m: array):
    return metrics.snr(x, y), metrics.snr(x, y, mask=m)


def p_snr_any(x: array, y: array, m):
    return metrics.snr(x, y, m)


def p_mpsnr(x: array, y: array, m: array):
    return metrics.psnr(x, y), metrics.psnr(x, y, mask=m)


def p_mpsnr_any(x: array, y: array, m):
    return metrics.psnr(x, y, m)


def p_mmse(x: array, y: array, m: array):
    return metrics.mse(x, y), metrics.mse(x, y, mask=m)


def p_mmse_any(x: array, y: array, m):
    return metrics.mse(x, y, m)


def p_nrmse(x: array, y: array, m: array):
    return metrics.nrmse(x, y), metrics.nrmse(x, y, mask=m)


def p_nrmse_any(x: array, y: array, m):
    return metrics.nrmse(x, y, m)


def p_metrics_twice(x: array, y: array, z: array, m: array):
    a = metrics.snr(x, y, m)
    b = metrics.snr(z, y)
    return a, b, metrics.ssim(x, y, m), metrics.ssim(z, y), metrics.mse(z, x), metrics.psnr(z, y)


@probe("C17")
def p_gram_schmidt(a: array):
    return matrix.gram_schmidt(a)


@probe("C17")
def p_gram_schmidt_opt(a: array, o):
    return matrix.gram_schmidt(a, return_opt=o)


@probe("C17")
def p_gram_schmidt_rows(u: array, v: array, w: array):
    return matrix.gram_schmidt([u, v, w], "both")


@probe("C17")
def p_gram_schmidt_ortho(u: array, v: array, w: array):
    return matrix.gram_schmidt([u, v, w], "orthogonal"), matrix.gram_schmidt([u, v], "orthonormal")


@probe("C17")
def p_nuclear_norm(x: array):
    return matrix.nuclear_norm(x)


@probe("C17")
def p_project(u: array, v: array):
    return matrix.project(u, v)


@probe("C17")
def p_rot_matrix(a: scalar):
    return matrix.rot_matrix(a)


@probe("C17")
def p_rotate(m: array, a: scalar):
    return matrix.rotate(m, a)


def _pm(o):
    return o.spec_rad, o.inv_spec_rad


@probe("C17", "C20")
def p_power_auto(f: afn, shape, r: rng):
    return _pm(matrix.PowerMethod(f, shape, rng=r))


@probe("C17", "C20")
def p_power_run0(f: afn, shape, seed, tol: scalar, x: scalar):
    o = matrix.PowerMethod(f, shape, auto_run=False, rng=seed)
    o.get_spec_rad(tolerance=tol, max_iter=0, extra_factor=x)
    return _pm(o)


@probe("C17", "C20")
def p_power_run1(f: afn, shape, seed, tol: scalar, x: scalar, v):
    o = matrix.PowerMethod(f, shape, auto_run=False, rng=seed, verbose=v)
    o.get_spec_rad(tolerance=tol, max_iter=1, extra_factor=x)
    return _pm(o)


@probe("C17", "C20")
def p_power_run2(f: afn, shape, seed, tol: scalar, x: scalar, v):
    o = matrix.PowerMethod(f, shape, auto_run=False, rng=seed, verbose=v)
    o.get_spec_rad(tolerance=tol, max_iter=2, extra_factor=x)
    return _pm(o)


@probe("C17")
def p_power_run3(f: afn, shape, seed: int, tol: scalar):
    o = matrix.PowerMethod(f, shape, auto_run=False, rng=seed)
    o.get_spec_rad(tolerance=tol, max_iter=3)
    return _pm(o)


@probe("C17")
def p_power_n(f: afn, shape, seed: int, tol: scalar, n: int, x: scalar):
    o = matrix.PowerMethod(f, shape, auto_run=False, rng=seed)
    o.get_spec_rad(tolerance=tol, max_iter=n, extra_factor=x)
    return _pm(o)


@probe("C17", "C20")
def p_power_opts(f: afn, shape, dt, auto, b, v, seed):
    o = matrix.PowerMethod(f, shape, dt, auto_run=False, compute_backend=b, verbose=v, rng=seed)
    o.get_spec_rad(max_iter=1)
    return _pm(o), o.compute_backend


@probe("C17")
def p_power_auto_flag(f: afn, shape):
    o = matrix.PowerMethod(f, shape, auto_run=False)
    return hasattr(o, "spec_rad")


@probe("C17", "C20")
def p_power_twice(f: afn, shape, seed: int, tol: scalar):
    o = matrix.PowerMethod(f, shape, auto_run=False, rng=seed)
    o.get_spec_rad(tolerance=tol, max_iter=1)
    a = _pm(o)
    o.get_spec_rad(tolerance=tol, max_iter=1)
    return a, _pm(o)


@probe("C16")
def p_convolve(x: array, k: array):
    return convolve(x, k)


@probe("C16")
def p_convolve_m(x: array, k: array, m):
    return convolve(x, k, method=m)


@probe("C16", "C22", env="free")
def p_convolve_free(x: array, k: array, m):
    return convolve(x, k, m)


@probe("C16")
def p_convolve_stack(x: array, k: array):
    return convolve_stack(x, k), convolve_stack(x, k, rot_kernel=True)


@probe("C16")
def p_convolve_stack_opt(x: array, k: array, r, m):
    return convolve_stack(x, k, rot_kernel=r, method=m)

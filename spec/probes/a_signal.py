PROPS = ["C13"]
from modopt.signal.noise import thresh, add_noise
from modopt.signal.positivity import positive, pos_thresh, pos_recursive
from modopt.signal.validation import transpose_test
from modopt.signal.filter import gaussian_filter, mex_hat, mex_hat_dir


def p_thresh_default(x: array, t):
    return thresh(x, t)


def p_thresh_hard(x: array, t: array):
    return thresh(x, t, threshold_type="hard")


def p_thresh_soft(x: array, t: array):
    return thresh(x, t, threshold_type="soft")


def p_thresh_any(x, t, k):
    return thresh(x, t, k)


def p_thresh_twice(x: array, t: array, y: array, u: array, k: str, k2: str):
    a = thresh(x, t, k)
    b = thresh(y, u, k2)
    return a, b, thresh(x, t, k)


def p_positive(x):
    return positive(x)


def p_positive_ragged(x, r):
    return positive(x, ragged=r)


def p_positive_array(x: array):
    return positive(x), positive(x, True)


def p_positive_twice(x: array, y: array):
    return positive(x), positive(y), positive(x)


def p_pos_thresh(x: array):
    return pos_thresh(x)


def p_pos_scalar(x: scalar):
    return pos_thresh(x), positive(x)


def p_pos_recursive(x: array):
    return pos_recursive(x)


@probe("C20")
def p_noise_default(x: array):
    return add_noise(x)


@probe("C20")
def p_noise_seed(x: array, s: scalar, seed: int):
    return add_noise(x, sigma=s, noise_type="gauss", rng=seed)


@probe("C20")
def p_noise_rng(x: array, s: scalar, r: rng):
    return add_noise(x, s, "poisson", r)


@probe("C20")
def p_noise_layers(x: array, s: array, r: rng):
    return add_noise(x, sigma=s, rng=r)


@probe("C20")
def p_noise_layers_poisson(x: array, s: list, r: rng):
    return add_noise(x, sigma=s, noise_type="poisson", rng=r)


@probe("C20", "C19")
def p_noise_any(x, s, k, r):
    return add_noise(x, s, k, r)


@probe("C20")
def p_noise_twice(x: array, s: scalar, seed: int):
    a = add_noise(x, sigma=s, rng=seed)
    b = add_noise(x, sigma=s, rng=seed)
    c = add_noise(x, sigma=s, rng=None)
    return a, b, c


@probe("C20")
def p_noise_stream(x: array, s: scalar, r: rng):
    a = add_noise(x, sigma=s, rng=r)
    b = add_noise(x, sigma=s, noise_type="poisson", rng=r)
    return a, b


@probe("C20")
def p_transpose_test(f: afn, g: afn, xs, r: rng):
    return transpose_test(f, g, xs, rng=r)


@probe("C20")
def p_transpose_test_args(f: afn, g: afn, xs, xa, ys, ya, seed):
    return transpose_test(f, g, xs, x_args=xa, y_shape=ys, y_args=ya, rng=seed)


@probe("C20")
def p_transpose_test_pos(f, g, xs, xa, ys, ya):
    return transpose_test(f, g, xs, xa, ys, ya)


@probe("C16")
def p_gauss(x: array, s: scalar):
    return gaussian_filter(x, s)


@probe("C16")
def p_gauss_norm(x: scalar, s: scalar, n):
    return gaussian_filter(x, s, norm=n)


@probe("C16", "C19")
def p_gauss_any(x, s, n):
    return gaussian_filter(x, s, n)


@probe("C16")
def p_mex_hat(x: array, s: scalar):
    return mex_hat(x, s)


@probe("C16", "C19")
def p_mex_hat_any(x, s):
    return mex_hat(x, s)


@probe("C16")
def p_mex_hat_dir(x: array, y: array, s: scalar):
    return mex_hat_dir(x, y, s)


@probe("C16", "C19")
def p_mex_hat_dir_any(x, y, s):
    return mex_hat_dir(x, y, s)

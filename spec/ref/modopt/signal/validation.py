import numpy as np

def transpose_test(operator, operator_t, x_shape, x_args=None, y_shape=None, y_args=None, rng=None):
    if not callable(operator) or not callable(operator_t):
        raise TypeError('The input operators must be callable functions.')
    if isinstance(y_shape, type(None)):
        y_shape = x_shape
    if isinstance(y_args, type(None)):
        y_args = x_args
    if not isinstance(rng, np.random.Generator):
        rng = np.random.default_rng(rng)
    x_val = rng.random(x_shape)
    y_val = rng.random(y_shape)
    mx_y = np.sum(np.multiply(operator(x_val, x_args), y_val))
    x_mty = np.sum(np.multiply(x_val, operator_t(y_val, y_args)))
    print(' - |<MX, Y> - <X, M.TY>| =', np.abs(mx_y - x_mty))

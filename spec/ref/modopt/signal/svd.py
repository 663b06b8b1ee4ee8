import numpy as np
from scipy.linalg import svd
from scipy.sparse.linalg import svds
from modopt.base.transform import matrix2cube
from modopt.interface.errors import warn
from modopt.math.convolve import convolve
from modopt.signal.noise import thresh

def find_n_pc(u_vec, factor=0.5):
    if np.sqrt(u_vec.shape[0]) % 1:
        raise ValueError('Invalid left singular vector. The size of the first ' + 'dimenion of ``u_vec`` must be perfect square.')
    array_shape = np.repeat(int(np.sqrt(u_vec.shape[0])), 2)
    u_auto = [convolve(elem.reshape(array_shape), np.rot90(elem.reshape(array_shape), 2)) for elem in u_vec.T]
    return np.sum([(u_val[tuple(zip(array_shape // 2))] ** 2 <= factor * np.sum(u_val ** 2),) for u_val in u_auto])

def calculate_svd(input_data):
    if not isinstance(input_data, np.ndarray) or input_data.ndim != 2:
        raise TypeError('Input data must be a 2D np.ndarray.')
    return svd(input_data, check_finite=False, lapack_driver='gesvd', full_matrices=False)

def svd_thresh(input_data, threshold=None, n_pc=None, thresh_type='hard'):
    less_than_zero = isinstance(n_pc, int) and n_pc <= 0
    str_not_all = isinstance(n_pc, str) and n_pc != 'all'
    if not isinstance(n_pc, (int, str, type(None))) or less_than_zero or str_not_all:
        raise ValueError('Invalid value for "n_pc", specify a positive integer value or ' + '"all"')
    u_vec, s_values, v_vec = calculate_svd(input_data)
    if isinstance(threshold, type(None)):
        if isinstance(n_pc, type(None)):
            n_pc = find_n_pc(u_vec, factor=0.1)
        if isinstance(n_pc, int) and n_pc >= s_values.size or (isinstance(n_pc, str) and n_pc == 'all'):
            n_pc = s_values.size
            warn('Using all singular values.')
        threshold = s_values[n_pc - 1]
    s_new = thresh(s_values, threshold, thresh_type)
    if np.all(s_new == s_values):
        warn('No change to singular values.')
    s_new = np.diag(s_new)
    return np.dot(u_vec, np.dot(s_new, v_vec))

def svd_thresh_coef_fast(input_data, threshold, n_vals=-1, extra_vals=5, thresh_type='hard'):
    max_vals = min(input_data.shape) - 1
    if n_vals == -1:
        n_vals = max_vals
    n_vals = min(max(n_vals, 1), max_vals)
    ok = False
    while not ok:
        u_vec, s_values, v_vec = svds(input_data, k=n_vals)
        ok = s_values[0] <= threshold or n_vals == max_vals
        n_vals = min(n_vals + extra_vals, max_vals)
    s_values = thresh(s_values, threshold, threshold_type=thresh_type)
    rank = np.count_nonzero(s_values)
    return (np.dot(u_vec[:, -rank:] * s_values[-rank:], v_vec[-rank:, :]), rank)

def svd_thresh_coef(input_data, operator, threshold, thresh_type='hard'):
    if not callable(operator):
        raise TypeError('Operator must be a callable function.')
    u_vec, s_values, v_vec = calculate_svd(input_data)
    s_values = np.diag(s_values)
    a_matrix = np.dot(s_values, v_vec)
    array_shape = np.repeat(int(np.sqrt(u_vec.shape[0])), 2)
    ti = np.array([np.linalg.norm(elem) for elem in operator(matrix2cube(u_vec, array_shape))])
    threshold = threshold * np.repeat(ti, a_matrix.shape[1]).reshape(a_matrix.shape)
    a_new = thresh(a_matrix, threshold, thresh_type)
    return np.dot(u_vec, a_new)

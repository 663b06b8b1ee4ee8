from itertools import product
import numpy as np
from modopt.base.backend import get_array_module, get_backend

def gram_schmidt(matrix, return_opt='orthonormal'):
    if return_opt not in {'orthonormal', 'orthogonal', 'both'}:
        raise ValueError('Invalid return_opt, options are: "orthonormal", "orthogonal" or ' + '"both"')
    u_vec = []
    e_vec = []
    for vector in matrix:
        if u_vec:
            u_now = vector - sum((project(u_i, vector) for u_i in u_vec))
        else:
            u_now = vector
        u_vec.append(u_now)
        e_vec.append(u_now / np.linalg.norm(u_now, 2))
    u_vec = np.array(u_vec)
    e_vec = np.array(e_vec)
    if return_opt == 'orthonormal':
        return e_vec
    elif return_opt == 'orthogonal':
        return u_vec
    elif return_opt == 'both':
        return (u_vec, e_vec)

def nuclear_norm(input_data):
    _, singular_values, _ = np.linalg.svd(input_data)
    return np.sum(singular_values)

def project(u_vec, v_vec):
    return np.inner(v_vec, u_vec) / np.inner(u_vec, u_vec) * u_vec

def rot_matrix(angle):
    return np.around(np.array([[np.cos(angle), -np.sin(angle)], [np.sin(angle), np.cos(angle)]], dtype='float'), 10)

def rotate(matrix, angle):
    shape = np.array(matrix.shape)
    if shape[0] != shape[1]:
        raise ValueError('Input matrix must be square.')
    shift = (shape - 1) // 2
    index = np.array(list(product(*np.array([np.arange(sval) for sval in shape])))) - shift
    new_index = np.array(np.dot(index, rot_matrix(angle)), dtype='int') + shift
    new_index[new_index >= shape[0]] -= shape[0]
    return matrix[tuple(zip(new_index.T))].reshape(shape.T)

class PowerMethod:

    def __init__(self, operator, data_shape, data_type=float, auto_run=True, compute_backend='numpy', verbose=False, rng=None):
        self._operator = operator
        self._data_shape = data_shape
        self._data_type = data_type
        self._verbose = verbose
        xp, compute_backend = get_backend(compute_backend)
        self.xp = xp
        self.rng = rng
        self.compute_backend = compute_backend
        if auto_run:
            self.get_spec_rad()

    def _set_initial_x(self):
        rng = self.xp.random.default_rng(self.rng)
        return rng.random(self._data_shape).astype(self._data_type)

    def get_spec_rad(self, tolerance=1e-06, max_iter=20, extra_factor=1.0):
        x_old = self._set_initial_x()
        xp = get_array_module(x_old)
        x_old_norm = xp.linalg.norm(x_old)
        x_old /= x_old_norm
        x_new_norm = x_old_norm
        for i_elem in range(max_iter):
            xp = get_array_module(x_old)
            x_new = self._operator(x_old)
            x_new_norm = xp.linalg.norm(x_new)
            x_new = x_new / x_new_norm
            if xp.abs(x_new_norm - x_old_norm) < tolerance:
                message = ' - Power Method converged after {0} iterations!'
                if self._verbose:
                    print(message.format(i_elem + 1))
                break
            elif i_elem == max_iter - 1 and self._verbose:
                message = ' - Power Method did not converge after {0} iterations!'
                print(message.format(max_iter))
            xp.copyto(x_old, x_new)
            x_old_norm = x_new_norm
        self.spec_rad = x_new_norm * extra_factor
        self.inv_spec_rad = 1.0 / self.spec_rad

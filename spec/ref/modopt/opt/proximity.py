import sys
import numpy as np
try:
    from sklearn.isotonic import isotonic_regression
except ImportError:
    import_sklearn = False
else:
    import_sklearn = True
from modopt.base.backend import get_array_module
from modopt.base.transform import cube2matrix, matrix2cube
from modopt.base.types import check_callable
from modopt.interface.errors import warn
from modopt.math.matrix import nuclear_norm
from modopt.signal.noise import thresh
from modopt.signal.positivity import positive
from modopt.signal.svd import svd_thresh, svd_thresh_coef, svd_thresh_coef_fast

class ProximityParent:

    def __init__(self, op, cost):
        self.op = op
        self.cost = cost

    @property
    def op(self):
        return self._op

    @op.setter
    def op(self, operator):
        self._op = check_callable(operator)

    @property
    def cost(self):
        return self._cost

    @cost.setter
    def cost(self, method):
        self._cost = check_callable(method)

class IdentityProx(ProximityParent):

    def __init__(self):
        self.op = lambda x_val, *args, **kwargs: x_val
        self.cost = lambda x_val, *args, **kwargs: 0

class Positivity(ProximityParent):

    def __init__(self):
        self.cost = self._cost_method

    def op(self, input_data, *args, **kwargs):
        return positive(input_data)

    def _cost_method(self, *args, **kwargs):
        if kwargs.get('verbose'):
            print(' - Min (X):', np.min(args[0]))
        return 0

class SparseThreshold(ProximityParent):

    def __init__(self, linear, weights, thresh_type='soft'):
        self._linear = linear
        self.weights = weights
        self._thresh_type = thresh_type
        self.op = self._op_method
        self.cost = self._cost_method

    def _op_method(self, input_data, extra_factor=1.0):
        threshold = self.weights * extra_factor
        return thresh(input_data, threshold, self._thresh_type)

    def _cost_method(self, *args, **kwargs):
        xp = get_array_module(args[0])
        cost_val = xp.sum(xp.abs(self.weights * self._linear.op(args[0])))
        if isinstance(cost_val, xp.ndarray):
            cost_val = cost_val.item()
        if kwargs.get('verbose'):
            print(' - L1 NORM (X):', cost_val)
        return cost_val

class LowRankMatrix(ProximityParent):

    def __init__(self, threshold, thresh_type='soft', lowr_type='standard', initial_rank=None, operator=None):
        self.thresh = threshold
        self.thresh_type = thresh_type
        self.lowr_type = lowr_type
        self.operator = operator
        self.op = self._op_method
        self.cost = self._cost_method
        self.rank = initial_rank

    def _op_method(self, input_data, extra_factor=1.0, rank=None):
        threshold = self.thresh * extra_factor
        if self.lowr_type == 'standard' and self.rank is None and (rank is None):
            data_matrix = svd_thresh(cube2matrix(input_data), threshold, thresh_type=self.thresh_type)
        elif self.lowr_type == 'standard':
            data_matrix, update_rank = svd_thresh_coef_fast(cube2matrix(input_data), threshold, n_vals=rank or self.rank, extra_vals=5, thresh_type=self.thresh_type)
            self.rank = update_rank
        elif self.lowr_type == 'ngole':
            data_matrix = svd_thresh_coef(cube2matrix(input_data), self.operator, threshold, thresh_type=self.thresh_type)
        else:
            raise ValueError('lowr_type should be standard or ngole')
        return matrix2cube(data_matrix, input_data.shape[1:])

    def _cost_method(self, *args, **kwargs):
        cost_val = self.thresh * nuclear_norm(cube2matrix(args[0]))
        if kwargs.get('verbose'):
            print(' - NUCLEAR NORM (X):', cost_val)
        return cost_val

class LinearCompositionProx(ProximityParent):

    def __init__(self, linear_op, prox_op):
        self.linear_op = linear_op
        self.prox_op = prox_op
        self.op = self._op_method
        self.cost = self._cost_method

    def _op_method(self, input_data, extra_factor=1.0):
        return self.linear_op.adj_op(self.prox_op.op(self.linear_op.op(input_data), extra_factor=extra_factor))

    def _cost_method(self, *args, **kwargs):
        return self.prox_op.cost(self.linear_op.op(args[0]), **kwargs)

class ProximityCombo(ProximityParent):

    def __init__(self, operators):
        operators = self._check_operators(operators)
        self.operators = operators
        self.op = self._op_method
        self.cost = self._cost_method

    def _check_operators(self, operators):
        if not isinstance(operators, (list, tuple, np.ndarray)):
            raise TypeError('Invalid input type, operators must be a list, tuple or ' + 'numpy array.')
        operators = np.array(operators)
        if not operators.size:
            raise ValueError('Operator list is empty.')
        for operator in operators:
            if not hasattr(operator, 'op'):
                raise ValueError('Operators must contain "op" method.')
            if not hasattr(operator, 'cost'):
                raise ValueError('Operators must contain "cost" method.')
            operator.op = check_callable(operator.op)
            operator.cost = check_callable(operator.cost)
        return operators

    def _op_method(self, input_data, extra_factor=1.0):
        res = np.empty(len(self.operators), dtype=np.ndarray)
        for index, _ in enumerate(self.operators):
            res[index] = self.operators[index].op(input_data[index], extra_factor=extra_factor)
        return res

    def _cost_method(self, *args, **kwargs):
        return np.sum([operator.cost(input_data, **kwargs) for operator, input_data in zip(self.operators, args[0])])

class OrderedWeightedL1Norm(ProximityParent):

    def __init__(self, weights):
        if not import_sklearn:
            raise ImportError('Required version of Scikit-Learn package not found see ' + 'documentation for details: ' + 'https://cea-cosmic.github.io/ModOpt/#optional-packages')
        if np.max(np.diff(weights)) > 0:
            raise ValueError('Weights must be non increasing')
        self.weights = weights.flatten()
        if (self.weights < 0).any():
            raise ValueError('The weight values must be provided in descending order')
        self.op = self._op_method
        self.cost = self._cost_method

    def _op_method(self, input_data, extra_factor=1.0):
        threshold = self.weights * extra_factor
        data_squeezed = np.squeeze(input_data)
        data_abs = np.abs(data_squeezed)
        data_abs_sort_idx = np.argsort(data_abs)[::-1]
        data_abs = data_abs[data_abs_sort_idx]
        data_abs = isotonic_regression(data_abs - threshold, y_min=0, increasing=False)
        data_abs_unsorted = np.empty_like(data_abs)
        data_abs_unsorted[data_abs_sort_idx] = data_abs
        with np.errstate(invalid='ignore'):
            sign_data = data_squeezed / np.abs(data_squeezed)
        sign_data[np.isnan(sign_data)] = 0
        return np.reshape(sign_data * data_abs_unsorted, input_data.shape)

    def _cost_method(self, *args, **kwargs):
        data_abs = np.squeeze(np.abs(args[0]))
        cost_val = KNOWN('owl-cost-pairing', np.sum(self.weights * np.sort(data_abs)[::-1]), np.sum(self.weights * np.sort(data_abs[::-1])))
        if kwargs.get('verbose'):
            print(' - OWL NORM (X):', cost_val)
        return cost_val

class Ridge(ProximityParent):

    def __init__(self, linear, weights, thresh_type='soft'):
        self._linear = linear
        self.weights = weights
        self.op = self._op_method
        self.cost = self._cost_method

    def _op_method(self, input_data, extra_factor=1.0):
        threshold = self.weights * extra_factor * 2
        return self._linear.op(input_data) / (1 + threshold)

    def _cost_method(self, *args, **kwargs):
        cost_val = np.sum(np.abs(self.weights * self._linear.op(args[0]) ** 2))
        if kwargs.get('verbose'):
            print(' - L2 NORM (X):', cost_val)
        return cost_val

class ElasticNet(ProximityParent):

    def __init__(self, linear, alpha, beta):
        self._linear = linear
        self.alpha = alpha
        self.beta = beta
        self.op = self._op_method
        self.cost = self._cost_method

    def _op_method(self, input_data, extra_factor=1.0):
        soft_threshold = self.beta * extra_factor
        normalization = self.alpha * 2 * extra_factor + 1
        return thresh(input_data, soft_threshold, 'soft') / normalization

    def _cost_method(self, *args, **kwargs):
        cost_val = np.sum(np.abs(self.alpha * self._linear.op(args[0]) ** 2) + np.abs(self.beta * self._linear.op(args[0])))
        if kwargs.get('verbose'):
            print(' - ELASTIC NET (X):', cost_val)
        return cost_val

class KSupportNorm(ProximityParent):

    def __init__(self, beta, k_value):
        self.beta = beta
        self.k_value = k_value
        self.op = self._op_method
        self.cost = self._cost_method

    @property
    def k_value(self):
        return self._k_value

    @k_value.setter
    def k_value(self, k_val):
        if k_val < 1:
            raise ValueError('The k parameter should be greater or equal than 1')
        self._k_value = k_val

    def _compute_theta(self, input_data, alpha, extra_factor=1.0):
        alpha_input = np.dot(np.expand_dims(alpha, -1), np.expand_dims(np.abs(input_data), -1).T)
        theta = np.zeros(alpha_input.shape)
        alpha_beta = alpha_input - self.beta * extra_factor
        theta = alpha_beta * ((alpha_beta <= 1) & (alpha_beta >= 0))
        theta = np.nan_to_num(theta)
        theta += alpha_input > self.beta * extra_factor + 1
        return theta

    def _interpolate(self, alpha0, alpha1, sum0, sum1):
        if sum0 == self._k_value:
            return alpha0
        elif sum1 == self._k_value:
            return alpha1
        slope = (sum1 - sum0) / (alpha1 - alpha0)
        b_val = sum0 - slope * alpha0
        return (self._k_value - b_val) / slope

    def _binary_search(self, input_data, alpha, extra_factor=1.0):
        first_idx = 0
        data_abs = np.abs(input_data)
        last_idx = alpha.shape[0] - 1
        found = False
        prev_midpoint = 0
        cnt = 0
        tolerance = 0.0001
        sum0 = self._compute_theta(data_abs, alpha[0], extra_factor).sum()
        sum1 = self._compute_theta(data_abs, alpha[-1], extra_factor).sum()
        if sum1 <= self._k_value:
            midpoint = alpha.shape[0] - 2
            found = True
        if sum0 >= self._k_value:
            found = True
            midpoint = 0
        while first_idx <= last_idx and (not found) and (cnt < alpha.shape[0]):
            midpoint = (first_idx + last_idx) // 2
            cnt += 1
            if prev_midpoint == midpoint:
                sum0 = self._compute_theta(data_abs, alpha[first_idx], extra_factor).sum()
                sum1 = self._compute_theta(data_abs, alpha[last_idx], extra_factor).sum()
                if np.abs(sum0 - self._k_value) <= tolerance:
                    found = True
                    midpoint = first_idx
                if np.abs(sum1 - self._k_value) <= tolerance:
                    found = True
                    midpoint = last_idx - 1
                if first_idx - last_idx in {1, 2}:
                    sum0 = self._compute_theta(data_abs, alpha[first_idx], extra_factor).sum()
                    sum1 = self._compute_theta(data_abs, alpha[last_idx], extra_factor).sum()
                    if (sum0 <= self._k_value) & (sum1 >= self._k_value):
                        found = True
            sum0 = self._compute_theta(data_abs, alpha[midpoint], extra_factor).sum()
            sum1 = self._compute_theta(data_abs, alpha[midpoint + 1], extra_factor).sum()
            if sum0 <= self._k_value <= sum1:
                found = True
            elif sum1 < self._k_value:
                first_idx = midpoint
            elif sum0 > self._k_value:
                last_idx = midpoint
            prev_midpoint = midpoint
        if found:
            return (midpoint, alpha[midpoint], alpha[midpoint + 1], sum0, sum1)
        raise ValueError('Cannot find the coordinate of alpha (i) such ' + 'that sum(theta(alpha[i])) =< k and ' + 'sum(theta(alpha[i+1])) >= k ')

    def _find_alpha(self, input_data, extra_factor=1.0):
        data_size = input_data.shape[0]
        alpha = np.zeros(data_size * 2)
        data_abs = np.abs(input_data)
        alpha[:data_size] = self.beta * extra_factor / (data_abs + sys.float_info.epsilon)
        alpha[data_size:] = (self.beta * extra_factor + 1) / (data_abs + sys.float_info.epsilon)
        alpha = np.sort(np.unique(alpha))
        _, *alpha_sum = self._binary_search(input_data, alpha, extra_factor)
        return self._interpolate(*alpha_sum)

    def _op_method(self, input_data, extra_factor=1.0):
        data_shape = input_data.shape
        k_max = np.prod(data_shape)
        if self._k_value > k_max:
            warn('K value of the K-support norm is greater than the input ' + f'dimension, its value will be set to {k_max}')
            self._k_value = k_max
        alpha = self._find_alpha(np.abs(input_data.flatten()), extra_factor)
        theta = self._compute_theta(np.abs(input_data.flatten()), alpha, extra_factor)
        rslt = np.nan_to_num(input_data.flatten() * theta / (theta + self.beta * extra_factor))
        return rslt.reshape(data_shape)

    def _find_q(self, sorted_data):
        first_idx = 0
        last_idx = self._k_value - 1
        found = False
        q_val = (first_idx + last_idx) // 2
        cnt = 0
        if sorted_data.sum() / self._k_value >= sorted_data[0]:
            found = True
            q_val = 0
        elif sorted_data[self._k_value - 1:].sum() <= sorted_data[self._k_value - 1]:
            found = True
            q_val = self._k_value - 1
        while not found and (not cnt == self._k_value) and (first_idx <= last_idx < self._k_value):
            q_val = (first_idx + last_idx) // 2
            cnt += 1
            l1_part = sorted_data[q_val:].sum() / (self._k_value - q_val)
            if sorted_data[q_val + 1] <= l1_part <= sorted_data[q_val]:
                found = True
            else:
                if sorted_data[q_val] <= l1_part:
                    last_idx = q_val
                if l1_part <= sorted_data[q_val + 1]:
                    first_idx = q_val
        return q_val

    def _cost_method(self, *args, **kwargs):
        data_abs = np.abs(args[0].flatten())
        ix = np.argsort(data_abs)[::-1]
        data_abs = data_abs[ix]
        q_val = self._find_q(data_abs)
        cost_val = (np.sum(data_abs[:q_val] ** 2) * 0.5 + np.sum(data_abs[q_val:]) ** 2 / (self._k_value - q_val)) * self.beta
        if kwargs.get('verbose'):
            print(' - K-SUPPORT NORM (X):', cost_val)
        return cost_val

class GroupLASSO(ProximityParent):

    def __init__(self, weights):
        self.weights = weights
        self.op = self._op_method
        self.cost = self._cost_method

    def _op_method(self, input_data, *args, extra_factor=1.0, **kwargs):
        norm2 = np.linalg.norm(input_data, axis=0)
        denominator = np.maximum(norm2, np.finfo(np.float32).eps)
        return input_data * np.maximum(0, 1.0 - self.weights * extra_factor / denominator)

    def _cost_method(self, input_data, *args, **kwargs):
        return np.sum(self.weights * np.linalg.norm(input_data, axis=0))

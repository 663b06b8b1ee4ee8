import numpy as np
from modopt.base.types import check_callable
from modopt.base.backend import get_array_module

class LinearParent:

    def __init__(self, op, adj_op):
        self.op = op
        self.adj_op = adj_op

    @property
    def op(self):
        return self._op

    @op.setter
    def op(self, operator):
        self._op = check_callable(operator)

    @property
    def adj_op(self):
        return self._adj_op

    @adj_op.setter
    def adj_op(self, operator):
        self._adj_op = check_callable(operator)

class Identity(LinearParent):

    def __init__(self):
        self.op = lambda input_data: input_data
        self.adj_op = self.op
        self.cost = lambda *args, **kwargs: 0

class MatrixOperator(LinearParent):

    def __init__(self, array):
        self.op = lambda x: array @ x
        xp = get_array_module(array)
        if xp.any(xp.iscomplex(array)):
            self.adj_op = lambda x: array.T.conjugate() @ x
        else:
            self.adj_op = lambda x: array.T @ x

class LinearCombo(LinearParent):

    def __init__(self, operators, weights=None):
        operators, weights = self._check_inputs(operators, weights)
        self.operators = operators
        self.weights = weights
        self.op = self._op_method
        self.adj_op = self._adj_op_method

    def _check_type(self, input_val):
        if not isinstance(input_val, (list, tuple, np.ndarray)):
            raise TypeError('Invalid input type, input must be a list, tuple or numpy ' + 'array.')
        input_val = np.array(input_val)
        if not input_val.size:
            raise ValueError('Input list is empty.')
        return input_val

    def _check_inputs(self, operators, weights):
        operators = self._check_type(operators)
        for operator in operators:
            if not hasattr(operator, 'op'):
                raise ValueError('Operators must contain "op" method.')
            if not hasattr(operator, 'adj_op'):
                raise ValueError('Operators must contain "adj_op" method.')
            operator.op = check_callable(operator.op)
            operator.adj_op = check_callable(operator.adj_op)
        if not isinstance(weights, type(None)):
            weights = self._check_type(weights)
            if weights.size != operators.size:
                raise ValueError('The number of weights must match the number of ' + 'operators.')
            if not np.issubdtype(weights.dtype, np.floating):
                raise TypeError('The weights must be a list of float values.')
        return (operators, weights)

    def _op_method(self, input_data):
        res = np.empty(len(self.operators), dtype=np.ndarray)
        for index, _ in enumerate(self.operators):
            res[index] = self.operators[index].op(input_data)
        return res

    def _adj_op_method(self, input_data):
        if isinstance(self.weights, type(None)):
            return np.mean([operator.adj_op(elem) for elem, operator in zip(input_data, self.operators)], axis=0)
        return np.sum([weight * operator.adj_op(elem) for elem, operator, weight in zip(input_data, self.operators, self.weights)], axis=0)

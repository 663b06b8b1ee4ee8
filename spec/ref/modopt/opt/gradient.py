import numpy as np
from modopt.base.types import check_callable, check_float, check_npndarray

class GradParent:

    def __init__(self, input_data, op, trans_op, get_grad=None, cost=None, data_type=None, input_data_writeable=False, verbose=True):
        self.verbose = verbose
        self._input_data_writeable = input_data_writeable
        self._grad_data_type = data_type
        self.obs_data = input_data
        self.op = op
        self.trans_op = trans_op
        if not isinstance(get_grad, type(None)):
            self.get_grad = get_grad
        if not isinstance(cost, type(None)):
            self.cost = cost

    @property
    def obs_data(self):
        return self._obs_data

    @obs_data.setter
    def obs_data(self, input_data):
        if self._grad_data_type in {float, np.floating}:
            input_data = check_float(input_data)
        check_npndarray(input_data, dtype=self._grad_data_type, writeable=self._input_data_writeable, verbose=self.verbose)
        self._obs_data = input_data

    @property
    def op(self):
        return self._op

    @op.setter
    def op(self, operator):
        self._op = check_callable(operator)

    @property
    def trans_op(self):
        return self._trans_op

    @trans_op.setter
    def trans_op(self, operator):
        self._trans_op = check_callable(operator)

    @property
    def get_grad(self):
        return self._get_grad

    @get_grad.setter
    def get_grad(self, method):
        self._get_grad = check_callable(method)

    @property
    def grad(self):
        return self._grad

    @grad.setter
    def grad(self, input_value):
        if self._grad_data_type in {float, np.floating}:
            input_value = check_float(input_value)
        self._grad = input_value

    @property
    def cost(self):
        return self._cost

    @cost.setter
    def cost(self, method):
        self._cost = check_callable(method)

    def trans_op_op(self, input_data):
        return self.trans_op(self.op(input_data))

class GradBasic(GradParent):

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.get_grad = self._get_grad_method
        self.cost = self._cost_method

    def _get_grad_method(self, input_data):
        self.grad = self.trans_op(self.op(input_data) - self.obs_data)

    def _cost_method(self, *args, **kwargs):
        cost_val = 0.5 * np.linalg.norm(self.obs_data - self.op(args[0])) ** 2
        if kwargs.get('verbose'):
            print(' - DATA FIDELITY (X):', cost_val)
        return cost_val

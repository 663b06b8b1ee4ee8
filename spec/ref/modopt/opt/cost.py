import abc
import numpy as np
from modopt.base.backend import get_array_module
from modopt.base.types import check_callable
from modopt.plot.cost_plot import plotCost

class CostParent(abc.ABC):

    def __init__(self, initial_cost=1000000.0, tolerance=0.0001, cost_interval=1, test_range=4, verbose=True, plot_output=None):
        self.cost = initial_cost
        self._cost_list = []
        self._cost_interval = cost_interval
        self._iteration = 1
        self._test_list = []
        self._test_range = test_range
        self._tolerance = tolerance
        self._plot_output = plot_output
        self._verbose = verbose

    def _check_cost(self):
        self._test_list.append(self.cost)
        xp = get_array_module(self.cost)
        if len(self._test_list) == self._test_range:
            t1 = xp.mean(xp.array(self._test_list[len(self._test_list) // 2:]), axis=0)
            t2 = xp.mean(xp.array(self._test_list[:len(self._test_list) // 2]), axis=0)
            if xp.around(t1, decimals=16):
                cost_diff = xp.linalg.norm(t1 - t2) / xp.linalg.norm(t1)
            else:
                cost_diff = 0
            self._test_list = []
            if self._verbose:
                print(' - CONVERGENCE TEST - ')
                print(' - CHANGE IN COST:', cost_diff)
                print('')
            return cost_diff <= self._tolerance
        return False

    @abc.abstractmethod
    def _calc_cost(self, *args, **kwargs):
        pass

    def get_cost(self, *args, **kwargs):
        test_conditions = self._cost_interval is None or self._iteration % self._cost_interval
        if test_conditions:
            test_result = False
        else:
            if self._verbose:
                print(' - ITERATION:', self._iteration)
            self.cost = self._calc_cost(*args, verbose=self._verbose, **kwargs)
            self._cost_list.append(self.cost)
            if self._verbose:
                print(' - COST:', self.cost)
                print('')
            test_result = self._check_cost()
        self._iteration += 1
        return test_result

    def plot_cost(self):
        plotCost(self._cost_list, self._plot_output)

class costObj(CostParent):

    def __init__(self, operators, **kwargs):
        super().__init__(**kwargs)
        self._operators = operators
        if not isinstance(operators, type(None)):
            self._check_operators()

    def _check_operators(self):
        if not isinstance(self._operators, (list, tuple, np.ndarray)):
            message = 'Input operators must be provided as a list, not {0}'
            raise TypeError(message.format(type(self._operators)))
        for op in self._operators:
            if not hasattr(op, 'cost'):
                raise ValueError('Operators must contain "cost" method.')
            op.cost = check_callable(op.cost)

    def _calc_cost(self, *args, **kwargs):
        return np.sum([op.cost(*args, **kwargs) for op in self._operators])

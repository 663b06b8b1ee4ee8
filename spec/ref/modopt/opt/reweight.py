import numpy as np
from modopt.base.types import check_float

class cwbReweight:

    def __init__(self, weights, thresh_factor=1.0, verbose=False):
        self.weights = check_float(weights)
        self.original_weights = np.copy(self.weights)
        self.thresh_factor = check_float(thresh_factor)
        self._rw_num = 1
        self.verbose = verbose

    def reweight(self, input_data):
        if self.verbose:
            print(f' - Reweighting: {self._rw_num}')
        self._rw_num += 1
        input_data = check_float(input_data)
        if input_data.shape != self.weights.shape:
            raise ValueError('Input data must have the same shape as the initial weights.')
        thresh_weights = self.thresh_factor * self.original_weights
        self.weights *= np.array(1.0 / (1.0 + np.abs(input_data) / thresh_weights))

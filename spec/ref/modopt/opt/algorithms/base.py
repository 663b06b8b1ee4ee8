from inspect import getmro
import numpy as np
from tqdm.auto import tqdm
from modopt.base import backend
from modopt.base.observable import MetricObserver, Observable
from modopt.interface.errors import warn

class SetUp(Observable):

    def __init__(self, metric_call_period=5, metrics=None, verbose=False, progress=True, step_size=None, compute_backend='numpy', **dummy_kwargs):
        self.idx = 0
        self.converge = False
        self.verbose = verbose
        self.progress = progress
        self.metrics = metrics
        self.step_size = step_size
        self._op_parents = ('GradParent', 'ProximityParent', 'LinearParent', 'costObj')
        self.metric_call_period = metric_call_period
        super().__init__(['cv_metrics'])
        for name, dic in self.metrics.items():
            observer = MetricObserver(name, dic['metric'], dic['mapping'], dic['cst_kwargs'], dic['early_stopping'])
            self.add_observer('cv_metrics', observer)
        xp, compute_backend = backend.get_backend(compute_backend)
        self.xp = xp
        self.compute_backend = compute_backend

    @property
    def metrics(self):
        return self._metrics

    @metrics.setter
    def metrics(self, metrics):
        if isinstance(metrics, type(None)):
            self._metrics = {}
        elif isinstance(metrics, dict):
            self._metrics = metrics
        else:
            raise TypeError(f'Metrics must be a dictionary, not {type(metrics)}.')

    def any_convergence_flag(self):
        return any((obs.converge_flag for obs in self._observers['cv_metrics']))

    def copy_data(self, input_data):
        return self.xp.copy(backend.change_backend(input_data, self.compute_backend))

    def _check_input_data(self, input_data):
        if not isinstance(input_data, (self.xp.ndarray, np.ndarray)):
            raise TypeError('Input data must be a numpy array or backend array')

    def _check_param(self, param_val):
        if not isinstance(param_val, float):
            raise TypeError('Algorithm parameter must be a float value.')

    def _check_param_update(self, param_update):
        param_conditions = not isinstance(param_update, type(None)) and (not callable(param_update))
        if param_conditions:
            raise TypeError('Algorithm parameter update must be a callabale function.')

    def _check_operator(self, operator):
        if not isinstance(operator, type(None)):
            tree = [op_obj.__name__ for op_obj in getmro(operator.__class__)]
            if not any((parent in tree for parent in self._op_parents)):
                message = '{0} does not inherit an operator parent.'
                warn(message.format(str(operator.__class__)))

    def _compute_metrics(self):
        kwargs = self.get_notify_observers_kwargs()
        self.notify_observers('cv_metrics', **kwargs)

    def _iterations(self, max_iter, progbar=None):
        for idx in range(max_iter):
            self.idx = idx
            self._update()
            if self.metrics and self.metric_call_period is not None:
                metric_conditions = self.idx % self.metric_call_period == 0 or self.idx == max_iter - 1 or self.converge
                if metric_conditions:
                    self._compute_metrics()
            if self.converge:
                if self.verbose:
                    print(' - Converged!')
                break
            if progbar is not None:
                progbar.update()

    def _run_alg(self, max_iter, progbar=None):
        if self.progress and progbar is None:
            with tqdm(total=max_iter) as pb:
                self._iterations(max_iter, progbar=pb)
        elif progbar is not None:
            self._iterations(max_iter, progbar=progbar)
        else:
            self._iterations(max_iter)

    def _update(self):
        raise NotImplementedError

    def get_notify_observers_kwargs(self):
        raise NotImplementedError

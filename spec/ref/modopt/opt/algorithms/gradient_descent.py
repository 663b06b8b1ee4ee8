import numpy as np
from modopt.opt.algorithms.base import SetUp
from modopt.opt.cost import costObj

class GenericGradOpt(SetUp):

    def __init__(self, x, grad, prox, cost, eta=1.0, eta_update=None, epsilon=1e-06, epoch_size=1, metric_call_period=5, metrics=None, **kwargs):
        if metrics is None:
            metrics = {}
        super().__init__(metric_call_period=metric_call_period, metrics=metrics, **kwargs)
        self.iter = 0
        self._check_input_data(x)
        self._x_old = np.copy(x)
        self._x_new = np.copy(x)
        self._speed_grad = np.zeros(x.shape, dtype=float)
        self._dir_grad = np.zeros_like(x)
        for operator in (grad, prox, cost):
            self._check_operator(operator)
        self._grad = grad
        self._prox = prox
        if cost == 'auto':
            self._cost_func = costObj([self._grad, self._prox])
        else:
            self._cost_func = cost
        for param_val in (eta, epsilon):
            self._check_param(param_val)
        self._eta = eta
        self._eps = epsilon
        self._check_param_update(eta_update)
        self._eta_update = eta_update
        self.idx = 0
        self.epoch_size = epoch_size

    def iterate(self, max_iter=150):
        self._run_alg(max_iter)
        self.retrieve_outputs()
        self.x_final = self._x_new

    def _update(self):
        self._grad.get_grad(self._x_old)
        self._update_grad_dir(self._grad.grad)
        self._update_grad_speed(self._grad.grad)
        step = self._eta / (np.sqrt(self._speed_grad) + self._eps)
        self._x_new = self._x_old - step * self._dir_grad
        if self.idx % self.epoch_size == 0:
            self.reset()
            self._update_reg(step)
        self._x_old = self._x_new.copy()
        if self._eta_update is not None:
            self._eta = self._eta_update(self._eta, self.idx)
        if self._cost_func:
            self.converge = self.any_convergence_flag() or self._cost_func.get_cost(self._x_new)
        else:
            self.converge = self.any_convergence_flag()

    def _update_grad_dir(self, grad):
        self._dir_grad = grad

    def _update_grad_speed(self, grad):
        pass

    def _update_reg(self, factor):
        self._x_new = self._prox.op(self._x_new, extra_factor=factor)

    def get_notify_observers_kwargs(self):
        return {'x_new': self._x_new, 'dir_grad': self._dir_grad, 'speed_grad': self._speed_grad, 'idx': self.idx}

    def retrieve_outputs(self):
        metrics = {}
        for obs in self._observers['cv_metrics']:
            metrics[obs.name] = obs.retrieve_metrics()
        self.metrics = metrics

    def reset(self):
        pass

class VanillaGenericGradOpt(GenericGradOpt):

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self._speed_grad = 1.0
        self._eps = 0

class AdaGenericGradOpt(GenericGradOpt):

    def _update_grad_speed(self, grad):
        self._speed_grad += abs(grad) ** 2

class RMSpropGradOpt(GenericGradOpt):

    def __init__(self, *args, gamma=0.5, **kwargs):
        super().__init__(*args, **kwargs)
        if gamma < 0 or gamma > 1:
            raise ValueError('gamma is outside of range [0,1]')
        self._check_param(gamma)
        self._gamma = gamma

    def _update_grad_speed(self, grad):
        self._speed_grad = self._gamma * self._speed_grad + (1 - self._gamma) * abs(grad) ** 2

class MomentumGradOpt(GenericGradOpt):

    def __init__(self, *args, beta=0.9, **kwargs):
        super().__init__(*args, **kwargs)
        self._check_param(beta)
        self._beta = beta
        self._speed_grad = 1.0
        self._eps = 0

    def _update_grad_dir(self, grad):
        self._dir_grad = self._beta * self._dir_grad + grad

    def reset(self):
        self._dir_grad = np.zeros_like(self._x_new)

class ADAMGradOpt(GenericGradOpt):

    def __init__(self, *args, gamma=0.9, beta=0.9, **kwargs):
        super().__init__(*args, **kwargs)
        self._check_param(gamma)
        self._check_param(beta)
        if gamma < 0 or gamma >= 1:
            raise ValueError('gamma is outside of range [0,1]')
        if beta < 0 or beta >= 1:
            raise ValueError('beta is outside of range [0,1]')
        self._gamma = gamma
        self._beta = beta
        self._beta_pow = 1
        self._gamma_pow = 1

    def _update_grad_dir(self, grad):
        self._beta_pow *= self._beta
        self._dir_grad = 1.0 / (1.0 - self._beta_pow) * (self._beta * self._dir_grad + (1 - self._beta) * grad)

    def _update_grad_speed(self, grad):
        self._gamma_pow *= self._gamma
        self._speed_grad = 1.0 / (1.0 - self._gamma_pow) * (self._gamma * self._speed_grad + (1 - self._gamma) * abs(grad) ** 2)

class SAGAOptGradOpt(GenericGradOpt):

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self._grad_memory = np.zeros((self.epoch_size, *self._x_old.shape), dtype=self._x_old.dtype)

    def _update_grad_dir(self, grad):
        cycle = self.idx % self.epoch_size
        self._dir_grad = self._dir_grad - self._grad_memory[cycle] + grad
        self._grad_memory[cycle] = grad

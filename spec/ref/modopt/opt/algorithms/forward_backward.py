import numpy as np
from modopt.base import backend
from modopt.opt.algorithms.base import SetUp
from modopt.opt.cost import costObj
from modopt.opt.linear import Identity

class FISTA:
    _restarting_strategies = ('adaptive', 'adaptive-i', 'adaptive-1', 'adaptive-ii', 'adaptive-2', 'greedy', None)

    def __init__(self, restart_strategy=None, min_beta=None, s_greedy=None, xi_restart=None, a_cd=None, p_lazy=1, q_lazy=1, r_lazy=4, **kwargs):
        if isinstance(a_cd, type(None)):
            self.mode = 'regular'
            self.p_lazy = p_lazy
            self.q_lazy = q_lazy
            self.r_lazy = r_lazy
        elif a_cd > 2:
            self.mode = 'CD'
            self.a_cd = a_cd
            self._n = 0
        else:
            raise ValueError('a_cd must either be None (for regular mode) or a number > 2')
        if restart_strategy in self._restarting_strategies:
            self._check_restart_params(restart_strategy, min_beta, s_greedy, xi_restart)
            self.restart_strategy = restart_strategy
            self.min_beta = min_beta
            self.s_greedy = s_greedy
            self.xi_restart = xi_restart
        else:
            message = 'Restarting strategy must be one of {0}.'
            raise ValueError(message.format(', '.join(map(str, self._restarting_strategies))))
        self._t_now = 1.0
        self._t_prev = 1.0
        self._delta0 = None
        self._safeguard = False

    def _check_restart_params(self, restart_strategy, min_beta, s_greedy, xi_restart):
        if restart_strategy is None:
            return True
        if self.mode != 'regular':
            raise ValueError('Restarting strategies can only be used with regular mode.')
        greedy_params_check = min_beta is None or s_greedy is None or s_greedy <= 1
        if restart_strategy == 'greedy' and greedy_params_check:
            raise ValueError('You need a min_beta and an s_greedy > 1 for greedy restart.')
        if xi_restart is None or xi_restart >= 1:
            raise ValueError('You need a xi_restart < 1 for restart.')
        return True

    def is_restart(self, z_old, x_new, x_old):
        xp = backend.get_array_module(x_new)
        if self.restart_strategy is None:
            return False
        criterion = xp.vdot(z_old - x_new, x_new - x_old) >= 0
        if criterion:
            if 'adaptive' in self.restart_strategy:
                self.r_lazy *= self.xi_restart
            if self.restart_strategy in {'adaptive-ii', 'adaptive-2'}:
                self._t_now = 1
        if self.restart_strategy == 'greedy':
            cur_delta = xp.linalg.norm(x_new - x_old)
            if self._delta0 is None:
                self._delta0 = self.s_greedy * cur_delta
            else:
                self._safeguard = cur_delta >= self._delta0
        return criterion

    def update_beta(self, beta):
        if self._safeguard:
            beta *= self.xi_restart
            beta = max(beta, self.min_beta)
        return beta

    def update_lambda(self, *args, **kwargs):
        if self.restart_strategy == 'greedy':
            return 2
        self._t_prev = self._t_now
        if self.mode == 'regular':
            sqrt_part = self.r_lazy * self._t_prev ** 2 + self.q_lazy
            self._t_now = self.p_lazy + np.sqrt(sqrt_part) * 0.5
        elif self.mode == 'CD':
            self._t_now = (self._n + self.a_cd - 1) / self.a_cd
            self._n += 1
        return 1 + (self._t_prev - 1) / self._t_now

class ForwardBackward(SetUp):

    def __init__(self, x, grad, prox, cost='auto', beta_param=1.0, lambda_param=1.0, beta_update=None, lambda_update='fista', auto_iterate=True, metric_call_period=5, metrics=None, linear=None, **kwargs):
        super().__init__(metric_call_period=metric_call_period, metrics=metrics, **kwargs)
        self._check_input_data(x)
        self._x_old = self.copy_data(x)
        self._z_old = self.copy_data(x)
        self._x_new = self.copy_data(x)
        self._z_new = self.copy_data(x)
        for operator in (grad, prox, cost):
            self._check_operator(operator)
        self._grad = grad
        self._prox = prox
        self._linear = linear
        if cost == 'auto':
            self._cost_func = costObj([self._grad, self._prox])
        else:
            self._cost_func = cost
        if metrics and self._linear is None:
            raise ValueError('When using metrics, you must pass a linear operator')
        if self._linear is None:
            self._linear = Identity()
        for param_val in (beta_param, lambda_param):
            self._check_param(param_val)
        self._beta = self.step_size or beta_param
        self._lambda = lambda_param
        self._check_param_update(beta_update)
        self._beta_update = beta_update
        if isinstance(lambda_update, str) and lambda_update == 'fista':
            fista = FISTA(**kwargs)
            self._lambda_update = fista.update_lambda
            self._is_restart = fista.is_restart
            if beta_update is None:
                self._beta_update = fista.update_beta
            else:
                self._beta_update = lambda beta: fista.update_beta(beta_update(beta))
        else:
            self._check_param_update(lambda_update)
            self._lambda_update = lambda_update
            self._is_restart = lambda *args, **kwargs: False
        if auto_iterate:
            self.iterate()

    def _update_param(self):
        if not isinstance(self._beta_update, type(None)):
            self._beta = self._beta_update(self._beta)
        if not isinstance(self._lambda_update, type(None)):
            self._lambda = self._lambda_update(self._lambda)

    def _update(self):
        self._grad.get_grad(self._z_old)
        y_old = self._z_old - self._beta * self._grad.grad
        self._x_new = self._prox.op(y_old, extra_factor=self._beta)
        self._z_new = self._x_old + self._lambda * (self._x_new - self._x_old)
        if self._is_restart(self._z_old, self._x_new, self._x_old):
            self._z_new = self._x_new
        self._x_old = self.xp.copy(self._x_new)
        self._z_old = self.xp.copy(self._z_new)
        self._update_param()
        if self._cost_func:
            self.converge = self.any_convergence_flag() or self._cost_func.get_cost(self._x_new)
        else:
            self.converge = self.any_convergence_flag()

    def iterate(self, max_iter=150, progbar=None):
        self._run_alg(max_iter, progbar)
        self.retrieve_outputs()
        self.x_final = self._z_new

    def get_notify_observers_kwargs(self):
        return {'x_new': self._linear.adj_op(self._x_new), 'z_new': self._z_new, 'idx': self.idx}

    def retrieve_outputs(self):
        metrics = {}
        for obs in self._observers['cv_metrics']:
            metrics[obs.name] = obs.retrieve_metrics()
        self.metrics = metrics

class GenForwardBackward(SetUp):

    def __init__(self, x, grad, prox_list, cost='auto', gamma_param=1.0, lambda_param=1.0, gamma_update=None, lambda_update=None, weights=None, auto_iterate=True, metric_call_period=5, metrics=None, linear=None, **kwargs):
        super().__init__(metric_call_period=metric_call_period, metrics=metrics, **kwargs)
        self._check_input_data(x)
        self._x_old = self.xp.copy(x)
        self._x_new = self.xp.copy(x)
        for operator in [grad, cost, *prox_list]:
            self._check_operator(operator)
        self._grad = grad
        self._prox_list = self.xp.array(prox_list)
        self._linear = linear
        if cost == 'auto':
            self._cost_func = costObj([self._grad, *prox_list])
        else:
            self._cost_func = cost
        if metrics and self._linear is None:
            raise ValueError('When using metrics, you must pass a linear operator')
        if self._linear is None:
            self._linear = Identity()
        for param_val in (gamma_param, lambda_param):
            self._check_param(param_val)
        self._gamma = self.step_size or gamma_param
        self._lambda_param = lambda_param
        for param_update in (gamma_update, lambda_update):
            self._check_param_update(param_update)
        self._gamma_update = gamma_update
        self._lambda_update = lambda_update
        self._set_weights(weights)
        self._z = self.xp.array([self._x_old for i in range(self._prox_list.size)])
        if auto_iterate:
            self.iterate()

    def _set_weights(self, weights):
        if isinstance(weights, type(None)):
            weights = self.xp.repeat(1.0 / self._prox_list.size, self._prox_list.size)
        elif not isinstance(weights, (list, tuple, np.ndarray)):
            raise TypeError('Weights must be provided as a list.')
        weights = self.xp.array(weights)
        if not np.issubdtype(weights.dtype, np.floating):
            raise ValueError('Weights must be list of float values.')
        if weights.size != self._prox_list.size:
            raise ValueError('The number of weights must match the number of proximity ' + 'operators.')
        expected_weight_sum = 1.0
        if not self.xp.isclose(self.xp.sum(weights), expected_weight_sum):
            raise ValueError('Proximity operator weights must sum to 1.0. Current sum of ' + f'weights = {self.xp.sum(weights)}')
        self._weights = weights

    def _update_param(self):
        if not isinstance(self._gamma_update, type(None)):
            self._gamma = self._gamma_update(self._gamma)
        if not isinstance(self._lambda_update, type(None)):
            self._lambda_param = self._lambda_update(self._lambda_param)

    def _update(self):
        self._grad.get_grad(self._x_old)
        for i in range(self._prox_list.size):
            z_temp = 2 * self._x_old - self._z[i] - self._gamma * self._grad.grad
            z_prox = self._prox_list[i].op(z_temp, extra_factor=self._gamma / self._weights[i])
            self._z[i] += self._lambda_param * (z_prox - self._x_old)
        self._x_new = self.xp.sum([z_i * w_i for z_i, w_i in zip(self._z, self._weights)], axis=0)
        self.xp.copyto(self._x_old, self._x_new)
        self._update_param()
        if self._cost_func:
            self.converge = self.any_convergence_flag() or self._cost_func.get_cost(self._x_new)
        else:
            self.converge = self.any_convergence_flag()

    def iterate(self, max_iter=150, progbar=None):
        self._run_alg(max_iter, progbar)
        self.retrieve_outputs()
        self.x_final = self._x_new

    def get_notify_observers_kwargs(self):
        return {'x_new': self._linear.adj_op(self._x_new), 'z_new': self._z, 'idx': self.idx}

    def retrieve_outputs(self):
        metrics = {}
        for obs in self._observers['cv_metrics']:
            metrics[obs.name] = obs.retrieve_metrics()
        self.metrics = metrics

class POGM(SetUp):

    def __init__(self, u, x, y, z, grad, prox, cost='auto', linear=None, beta_param=1.0, sigma_bar=1.0, auto_iterate=True, metric_call_period=5, metrics=None, **kwargs):
        super().__init__(metric_call_period=metric_call_period, metrics=metrics, linear=linear, **kwargs)
        for input_data in (u, x, y, z):
            self._check_input_data(input_data)
        self._u_old = self.xp.copy(u)
        self._x_old = self.xp.copy(x)
        self._x_new = self.xp.copy(x)
        self._y_old = self.xp.copy(y)
        self._z = self.xp.copy(z)
        for operator in (grad, prox, cost):
            self._check_operator(operator)
        self._grad = grad
        self._prox = prox
        self._linear = linear
        if cost == 'auto':
            self._cost_func = costObj([self._grad, self._prox])
        else:
            self._cost_func = cost
        if self._linear is None:
            self._linear = Identity()
        for param_val in (beta_param, sigma_bar):
            self._check_param(param_val)
        if sigma_bar < 0 or sigma_bar > 1:
            raise ValueError('The sigma bar parameter needs to be in [0, 1]')
        self._beta = self.step_size or beta_param
        self._sigma_bar = sigma_bar
        self._xi = 1.0
        self._sigma = 1.0
        self._t_old = 1.0
        self._grad.get_grad(self._x_old)
        self._g_old = self.xp.copy(self._grad.grad)
        if auto_iterate:
            self.iterate()

    def _update(self):
        self._grad.get_grad(self._x_old)
        self._u_new = -self._beta * self._grad.grad
        self._u_new += self._x_old
        self._t_new = 0.5 * (1 + self.xp.sqrt(1 + 4 * self._t_old ** 2))
        t_shifted_ratio = (self._t_old - 1) / self._t_new
        sigma_t_ratio = self._sigma * self._t_old / self._t_new
        beta_xi_t_shifted_ratio = t_shifted_ratio * self._beta / self._xi
        self._z = -beta_xi_t_shifted_ratio * (self._x_old - self._z)
        self._z += self._u_new
        self._z += t_shifted_ratio * (self._u_new - self._u_old)
        self._z += sigma_t_ratio * (self._u_new - self._x_old)
        self._xi = self._beta * (1 + t_shifted_ratio + sigma_t_ratio)
        self._x_new = self._prox.op(self._z, extra_factor=self._xi)
        self._g_new = self._z - self._x_new
        self._g_new /= self._xi
        self._g_new += self._grad.grad
        self._y_new = -self._beta * self._g_new
        self._y_new += self._x_old
        restart_crit = self.xp.vdot(-self._g_new, self._y_new - self._y_old) < 0
        if restart_crit:
            self._t_new = 1
            self._sigma = 1
        elif self.xp.vdot(self._g_new, self._g_old) < 0:
            self._sigma *= self._sigma_bar
        self._t_old = self._t_new
        self.xp.copyto(self._u_old, self._u_new)
        self.xp.copyto(self._x_old, self._x_new)
        self.xp.copyto(self._g_old, self._g_new)
        self.xp.copyto(self._y_old, self._y_new)
        if self._cost_func:
            self.converge = self.any_convergence_flag() or self._cost_func.get_cost(self._x_new)
        else:
            self.converge = self.any_convergence_flag()

    def iterate(self, max_iter=150, progbar=None):
        self._run_alg(max_iter, progbar)
        self.retrieve_outputs()
        self.x_final = self._x_new

    def get_notify_observers_kwargs(self):
        return {'u_new': self._u_new, 'x_new': self._linear.adj_op(self._x_new), 'y_new': self._y_new, 'z_new': self._z, 'xi': self._xi, 'sigma': self._sigma, 't': self._t_new, 'idx': self.idx}

    def retrieve_outputs(self):
        metrics = {}
        for obs in self._observers['cv_metrics']:
            metrics[obs.name] = obs.retrieve_metrics()
        self.metrics = metrics

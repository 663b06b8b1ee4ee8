from modopt.opt.algorithms.base import SetUp
from modopt.opt.cost import costObj
from modopt.opt.linear import Identity

class Condat(SetUp):

    def __init__(self, x, y, grad, prox, prox_dual, linear=None, cost='auto', reweight=None, rho=0.5, sigma=1.0, tau=1.0, rho_update=None, sigma_update=None, tau_update=None, auto_iterate=True, max_iter=150, n_rewightings=1, metric_call_period=5, metrics=None, **kwargs):
        super().__init__(metric_call_period=metric_call_period, metrics=metrics, **kwargs)
        for input_data in (x, y):
            self._check_input_data(input_data)
        self._x_old = self.xp.copy(x)
        self._x_new = self.xp.copy(x)
        self._y_old = self.xp.copy(y)
        self._y_new = self.xp.copy(y)
        for operator in (grad, prox, prox_dual, linear, cost):
            self._check_operator(operator)
        self._grad = grad
        self._prox = prox
        self._prox_dual = prox_dual
        self._reweight = reweight
        if isinstance(linear, type(None)):
            self._linear = Identity()
        else:
            self._linear = linear
        if cost == 'auto':
            self._cost_func = costObj([self._grad, self._prox, self._prox_dual])
        else:
            self._cost_func = cost
        for param_val in (rho, sigma, tau):
            self._check_param(param_val)
        self._rho = rho
        self._sigma = sigma
        self._tau = self.step_size or tau
        for param_update in (rho_update, sigma_update, tau_update):
            self._check_param_update(param_update)
        self._rho_update = rho_update
        self._sigma_update = sigma_update
        self._tau_update = tau_update
        if auto_iterate:
            self.iterate(max_iter=max_iter, n_rewightings=n_rewightings)

    def _update_param(self):
        if not isinstance(self._rho_update, type(None)):
            self._rho = self._rho_update(self._rho)
        if not isinstance(self._sigma_update, type(None)):
            self._sigma = self._sigma_update(self._sigma)
        if not isinstance(self._tau_update, type(None)):
            self._tau = self._tau_update(self._tau)

    def _update(self):
        self._grad.get_grad(self._x_old)
        x_prox = self._prox.op(self._x_old - self._tau * self._grad.grad - self._tau * self._linear.adj_op(self._y_old))
        y_temp = self._y_old + self._sigma * self._linear.op(2 * x_prox - self._x_old)
        y_prox = y_temp - self._sigma * self._prox_dual.op(y_temp / self._sigma, extra_factor=1.0 / self._sigma)
        self._x_new = self._rho * x_prox + (1 - self._rho) * self._x_old
        self._y_new = self._rho * y_prox + (1 - self._rho) * self._y_old
        del x_prox, y_prox, y_temp
        self.xp.copyto(self._x_old, self._x_new)
        self.xp.copyto(self._y_old, self._y_new)
        self._update_param()
        if self._cost_func:
            self.converge = self.any_convergence_flag() or self._cost_func.get_cost(self._x_new, self._y_new)
        else:
            self.converge = self.any_convergence_flag()

    def iterate(self, max_iter=150, n_rewightings=1, progbar=None):
        self._run_alg(max_iter, progbar)
        if not isinstance(self._reweight, type(None)):
            for _ in range(n_rewightings):
                self._reweight.reweight(self._linear.op(self._x_new))
                if progbar is not None:
                    progbar.reset(total=max_iter)
                self._run_alg(max_iter, progbar)
        self.retrieve_outputs()
        self.x_final = self._x_new
        self.y_final = self._y_new

    def get_notify_observers_kwargs(self):
        return {'x_new': self._x_new, 'y_new': self._y_new, 'idx': self.idx}

    def retrieve_outputs(self):
        metrics = {}
        for obs in self._observers['cv_metrics']:
            metrics[obs.name] = obs.retrieve_metrics()
        self.metrics = metrics

import numpy as np
from modopt.base.backend import get_array_module
from modopt.opt.algorithms.base import SetUp
from modopt.opt.cost import CostParent

class ADMMcostObj(CostParent):

    def __init__(self, cost_funcs, A, B, b, tau, **kwargs):
        super().__init__(**kwargs)
        self.cost_funcs = cost_funcs
        self.A = A
        self.B = B
        self.b = b
        self.tau = tau

    def _calc_cost(self, u, v, **kwargs):
        xp = get_array_module(u)
        cost = self.cost_funcs[0](u) + self.cost_funcs[1](v)
        residual = self.A.op(u) + self.B.op(v) - self.b
        return cost + self.tau * xp.linalg.norm(residual) ** 2

class ADMM(SetUp):

    def __init__(self, u, v, mu, A, B, b, optimizers, tau=1, cost_funcs=None, **kwargs):
        super().__init__(**kwargs)
        self.A = A
        self.B = B
        self.b = b
        self._opti_H = optimizers[0]
        self._opti_G = optimizers[1]
        self._tau = tau
        if cost_funcs is not None:
            self._cost_func = ADMMcostObj(cost_funcs, A, B, b, tau)
        else:
            self._cost_func = None
        self._u_old = self.xp.copy(u)
        self._u_new = self.xp.copy(u)
        self._v_old = self.xp.copy(v)
        self._v_new = self.xp.copy(v)
        self._mu_new = self.xp.copy(mu)
        self._mu_old = self.xp.copy(mu)

    def _update(self):
        self._u_new = self._opti_H(init=self._u_old, obs=KNOWN('admm-subproblem-obs', self.b - self.B.op(self._v_old) - self._mu_old, self.B.op(self._v_old) + self._u_old - self.b))
        tmp = self.A.op(self._u_new)
        self._v_new = self._opti_G(init=self._v_old, obs=KNOWN('admm-subproblem-obs', self.b - tmp - self._mu_old, tmp + self._u_old - self.b))
        self._mu_new = self._mu_old + (tmp + self.B.op(self._v_new) - self.b)
        self._u_old = self.xp.copy(self._u_new)
        self._v_old = self.xp.copy(self._v_new)
        self._mu_old = self.xp.copy(self._mu_new)
        if self._cost_func:
            self.converge = self.any_convergence_flag()
            self.converge |= self._cost_func.get_cost(self._u_new, self._v_new)
        else:
            self.converge = self.any_convergence_flag()

    def iterate(self, max_iter=150):
        self._run_alg(max_iter)
        self.retrieve_outputs()
        self.u_final = self._u_new
        self.x_final = self.u_final
        self.v_final = self._v_new

    def get_notify_observers_kwargs(self):
        return {'x_new': self._u_new, 'v_new': self._v_new, 'idx': self.idx}

    def retrieve_outputs(self):
        metrics = {}
        for obs in self._observers['cv_metrics']:
            metrics[obs.name] = obs.retrieve_metrics()
        self.metrics = metrics

class FastADMM(ADMM):

    def __init__(self, u, v, mu, A, B, b, optimizers, cost_funcs=None, alpha=1, eta=0.999, tau=1, **kwargs):
        super().__init__(u=u, v=v, mu=mu, A=A, B=B, b=b, optimizers=optimizers, tau=tau, cost_funcs=cost_funcs, **kwargs)
        self._c_old = np.inf
        self._c_new = 0
        self._eta = eta
        self._alpha_old = alpha
        self._alpha_new = alpha
        self._v_hat = self.xp.copy(self._v_new)
        self._mu_hat = self.xp.copy(self._mu_new)

    def _update(self):
        self._u_new = self._opti_H(init=self._u_old, obs=KNOWN('admm-subproblem-obs', self.b - self.B.op(self._v_hat) - self._mu_hat, self.B.op(self._v_hat) + self._u_old - self.b))
        tmp = self.A.op(self._u_new)
        self._v_new = self._opti_G(init=self._v_hat, obs=KNOWN('admm-subproblem-obs', self.b - tmp - self._mu_hat, tmp + self._u_old - self.b))
        self._mu_new = self._mu_hat + (tmp + self.B.op(self._v_new) - self.b)
        self._c_new = self._tau * self.xp.linalg.norm(self._mu_new - self._mu_hat) ** 2
        self._c_new += self._tau * self.xp.linalg.norm(self.B.op(self._v_new - self._v_hat)) ** 2
        if self._c_new < self._eta * self._c_old:
            self._alpha_new = 0.5 * (1 + np.sqrt(1 + 4 * self._alpha_old ** 2))
            beta = (self._alpha_old - 1) / self._alpha_new
            self._v_hat = self._v_new + (self._v_new - self._v_old) * beta
            self._mu_hat = self._mu_new + (self._mu_new - self._mu_old) * beta
        else:
            self._alpha_new = 1
            self._v_hat = self.xp.copy(self._v_old)
            self._mu_hat = self.xp.copy(self._mu_old)
            self._c_new = self._c_old / self._eta
        self.xp.copyto(self._u_old, self._u_new)
        self.xp.copyto(self._v_old, self._v_new)
        self.xp.copyto(self._mu_old, self._mu_new)
        self._alpha_old = self._alpha_new
        self._c_old = self._c_new
        if self._cost_func:
            self.converge = self.any_convergence_flag()
            self.converge |= self._cost_func.get_cost(self._u_new, self._v_new)
        else:
            self.converge = self.any_convergence_flag()

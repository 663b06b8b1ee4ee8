from .forward_backward import FISTA, ForwardBackward, GenForwardBackward, POGM
from .primal_dual import Condat
from .gradient_descent import ADAMGradOpt, AdaGenericGradOpt, GenericGradOpt, MomentumGradOpt, RMSpropGradOpt, SAGAOptGradOpt, VanillaGenericGradOpt
from .admm import ADMM, FastADMM
__all__ = ['FISTA', 'ForwardBackward', 'GenForwardBackward', 'POGM', 'Condat', 'ADAMGradOpt', 'AdaGenericGradOpt', 'GenericGradOpt', 'MomentumGradOpt', 'RMSpropGradOpt', 'SAGAOptGradOpt', 'VanillaGenericGradOpt', 'ADMM', 'FastADMM']

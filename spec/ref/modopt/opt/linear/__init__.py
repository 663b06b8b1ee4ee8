from .base import LinearParent, Identity, MatrixOperator, LinearCombo
from .wavelet import WaveletConvolve, WaveletTransform
__all__ = ['LinearParent', 'Identity', 'MatrixOperator', 'LinearCombo', 'WaveletConvolve', 'WaveletTransform']

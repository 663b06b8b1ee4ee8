import numpy as np
import scipy.signal
from modopt.base.np_adjust import rotate_stack
from modopt.interface.errors import warn
try:
    from astropy.convolution import convolve_fft
except ImportError:
    import_astropy = False
    warn('astropy not found, will default to scipy for convolution')
else:
    import_astropy = True
try:
    import pyfftw
except ImportError:
    pass
else:
    scipy.fftpack = pyfftw.interfaces.scipy_fftpack
    warn('Using pyFFTW "monkey patch" for scipy.fftpack')

def convolve(input_data, kernel, method='scipy'):
    if input_data.ndim != kernel.ndim:
        raise ValueError('Data and kernel must have the same dimensions.')
    if method not in {'astropy', 'scipy'}:
        raise ValueError('Invalid method. Options are "astropy" or "scipy".')
    if not import_astropy:
        method = 'scipy'
    if method == 'astropy':
        return convolve_fft(input_data, kernel, boundary='wrap', crop=False, nan_treatment='fill', normalize_kernel=False)
    elif method == 'scipy':
        return scipy.signal.fftconvolve(input_data, kernel, mode='same')

def convolve_stack(input_data, kernel, rot_kernel=False, method='scipy'):
    if rot_kernel:
        kernel = rotate_stack(kernel)
    return np.array([convolve(data_i, kernel_i, method=method) for data_i, kernel_i in zip(input_data, kernel)])

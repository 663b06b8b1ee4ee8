import numpy as np
try:
    from packaging import version
    from astropy import __version__ as astropy_version
    from astropy.convolution import Gaussian2DKernel
except ImportError:
    import_astropy = False
else:
    import_astropy = True

def gaussian_kernel(data_shape, sigma, norm='max'):
    if not import_astropy:
        raise ImportError('Astropy package not found.')
    if norm not in {'max', 'sum'}:
        raise ValueError('Invalid norm, options are "max", "sum" or "none".')
    kernel = np.array(Gaussian2DKernel(sigma, x_size=data_shape[1], y_size=data_shape[0]))
    if norm == 'max':
        return kernel / np.max(kernel)
    elif version.parse(astropy_version) < version.parse('5.2'):
        return kernel / np.sum(kernel)
    else:
        return kernel

def mad(input_data):
    return np.median(np.abs(input_data - np.median(input_data)))

def mse(data1, data2):
    return np.mean((data1 - data2) ** 2)

def psnr(data1, data2, method='starck', max_pix=255):
    if method == 'starck':
        return 20 * np.log10(data1.shape[0] * np.abs(np.max(data1) - np.min(data1)) / np.linalg.norm(data1 - data2))
    elif method == 'wiki':
        return 20 * np.log10(max_pix) - 10 * np.log10(mse(data1, data2))
    raise ValueError('Invalid PSNR method. Options are "starck" and "wiki"')

def psnr_stack(data1, data2, metric=np.mean, method='starck'):
    if data1.ndim != 3 or data2.ndim != 3:
        raise ValueError('Input data must be a 3D np.ndarray')
    return metric([psnr(i_elem, j_elem, method=method) for i_elem, j_elem in zip(data1, data2)])

def sigma_mad(input_data):
    return 1.4826 * mad(input_data)

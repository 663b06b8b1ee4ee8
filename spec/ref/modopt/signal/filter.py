import numpy as np
from modopt.base.types import check_float

def gaussian_filter(data_point, sigma, norm=True):
    data_point = check_float(data_point)
    sigma = check_float(sigma)
    numerator = np.exp(-0.5 * (data_point / sigma) ** 2)
    if norm:
        return numerator / (np.sqrt(2 * np.pi) * sigma)
    return numerator

def mex_hat(data_point, sigma):
    data_point = check_float(data_point)
    sigma = check_float(sigma)
    xs = (data_point / sigma) ** 2
    factor = 2 * (3 * sigma) ** (-0.5) * np.pi ** (-0.25)
    return factor * (1 - xs) * np.exp(-0.5 * xs)

def mex_hat_dir(data_gauss, data_mex, sigma):
    data_gauss = check_float(data_gauss)
    sigma = check_float(sigma)
    return -0.5 * (data_gauss / sigma) ** 2 * mex_hat(data_mex, sigma)

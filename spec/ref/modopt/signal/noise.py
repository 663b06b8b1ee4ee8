import numpy as np
from modopt.base.backend import get_array_module

def add_noise(input_data, sigma=1.0, noise_type='gauss', rng=None):
    if not isinstance(rng, np.random.Generator):
        rng = np.random.default_rng(rng)
    input_data = np.array(input_data)
    if noise_type not in {'gauss', 'poisson'}:
        raise ValueError('Invalid noise type. Options are "gauss" or "poisson"')
    if isinstance(sigma, (list, tuple, np.ndarray)):
        if len(sigma) != input_data.shape[0]:
            raise ValueError('Number of sigma values must match first dimension of input ' + 'data')
    if noise_type == 'gauss':
        random = rng.standard_normal(input_data.shape)
    elif noise_type == 'poisson':
        random = rng.poisson(np.abs(input_data))
    if isinstance(sigma, (int, float)):
        return input_data + sigma * random
    noise = np.array([sig * rand for sig, rand in zip(sigma, random)])
    return input_data + noise

def thresh(input_data, threshold, threshold_type='hard'):
    xp = get_array_module(input_data)
    input_data = xp.array(input_data)
    if threshold_type not in {'hard', 'soft'}:
        raise ValueError('Invalid threshold type. Options are "hard" or "soft"')
    if threshold_type == 'soft':
        denominator = xp.maximum(xp.finfo(np.float64).eps, xp.abs(input_data))
        max_value = xp.maximum(1.0 - threshold / denominator, 0)
        return xp.around(max_value * input_data, decimals=15)
    return input_data * (xp.abs(input_data) >= threshold)

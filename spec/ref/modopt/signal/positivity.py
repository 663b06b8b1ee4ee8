import numpy as np

def pos_thresh(input_data):
    return input_data * (input_data > 0)

def pos_recursive(input_data):
    if input_data.dtype == 'O':
        res = np.array([pos_recursive(elem) for elem in input_data], dtype='object')
    else:
        res = pos_thresh(input_data)
    return res

def positive(input_data, ragged=False):
    if not isinstance(input_data, (int, float, list, tuple, np.ndarray)):
        raise TypeError('Invalid data type, input must be `int`, `float`, `list`, ' + '`tuple` or `np.ndarray`.')
    if isinstance(input_data, (int, float)):
        return pos_thresh(input_data)
    if ragged:
        input_data = np.array(input_data, dtype='object')
    else:
        input_data = np.array(input_data)
    return pos_recursive(input_data)

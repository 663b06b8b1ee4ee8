import numpy as np

def rotate(input_data):
    return np.rot90(input_data, 2)

def rotate_stack(input_data):
    return np.array([rotate(array) for array in input_data])

def pad2d(input_data, padding):
    input_data = np.array(input_data)
    if isinstance(padding, int):
        padding = np.array([padding])
    elif isinstance(padding, (tuple, list)):
        padding = np.array(padding)
    elif not isinstance(padding, np.ndarray):
        raise ValueError('Padding must be an integer or a tuple (or list, np.ndarray) of integers')
    if padding.size == 1:
        padding = np.repeat(padding, 2)
    pad_x = (padding[0], padding[0])
    pad_y = (padding[1], padding[1])
    return np.pad(input_data, (pad_x, pad_y), 'constant')

def ftr(input_data):
    return fancy_transpose(input_data)

def ftl(input_data):
    return fancy_transpose(input_data, -1)

def fancy_transpose(input_data, roll=1):
    axis_roll = np.roll(np.arange(input_data.ndim), roll)
    return np.transpose(input_data, axes=axis_roll)

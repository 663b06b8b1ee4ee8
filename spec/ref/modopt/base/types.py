import numpy as np
from modopt.interface.errors import warn

def check_callable(input_obj):
    if not callable(input_obj):
        raise TypeError('The input object must be a callable function.')
    return input_obj

def check_float(input_obj):
    if not isinstance(input_obj, (int, float, list, tuple, np.ndarray)):
        raise TypeError('Invalid input type.')
    if isinstance(input_obj, int):
        input_obj = float(input_obj)
    elif isinstance(input_obj, (list, tuple)):
        input_obj = np.array(input_obj, dtype=float)
    elif isinstance(input_obj, np.ndarray) and (not np.issubdtype(input_obj.dtype, np.floating)):
        input_obj = input_obj.astype(float)
    return input_obj

def check_int(input_obj):
    if not isinstance(input_obj, (int, float, list, tuple, np.ndarray)):
        raise TypeError('Invalid input type.')
    if isinstance(input_obj, float):
        input_obj = int(input_obj)
    elif isinstance(input_obj, (list, tuple)):
        input_obj = np.array(input_obj, dtype=int)
    elif isinstance(input_obj, np.ndarray) and (not np.issubdtype(input_obj.dtype, np.integer)):
        input_obj = input_obj.astype(int)
    return input_obj

def check_npndarray(input_obj, dtype=None, writeable=True, verbose=True):
    if not isinstance(input_obj, np.ndarray):
        raise TypeError('Input is not a numpy array.')
    if not isinstance(dtype, type(None)) and (not np.issubdtype(input_obj.dtype, dtype)):
        raise TypeError(f'The numpy array elements are not of type: {dtype}')
    if not writeable and verbose and input_obj.flags.writeable:
        warn('Making input data immutable.')
    input_obj.flags.writeable = writeable

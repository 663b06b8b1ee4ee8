from importlib import util
import numpy as np
from modopt.interface.errors import warn
try:
    import torch
    from torch.utils.dlpack import from_dlpack as torch_from_dlpack
    from torch.utils.dlpack import to_dlpack as torch_to_dlpack
except ImportError:
    import_torch = False
else:
    import_torch = True
LIBRARIES = {'cupy': None, 'tensorflow': None, 'numpy': np}
if util.find_spec('cupy') is not None:
    try:
        import cupy as cp
        LIBRARIES['cupy'] = cp
    except ImportError:
        pass
if util.find_spec('tensorflow') is not None:
    try:
        from tensorflow.experimental import numpy as tnp
        LIBRARIES['tensorflow'] = tnp
    except ImportError:
        pass

def get_backend(backend):
    if backend not in LIBRARIES.keys() or LIBRARIES[backend] is None:
        msg = '{0} backend not possible, please ensure that ' + 'the optional libraries are installed.\n' + 'Reverting to numpy.'
        warn(msg.format(backend))
        backend = 'numpy'
    return (LIBRARIES[backend], backend)

def get_array_module(input_data):
    if LIBRARIES['tensorflow'] is not None:
        if isinstance(input_data, LIBRARIES['tensorflow'].ndarray):
            return LIBRARIES['tensorflow']
    if LIBRARIES['cupy'] is not None:
        if isinstance(input_data, LIBRARIES['cupy'].ndarray):
            return LIBRARIES['cupy']
    return np

def change_backend(input_data, backend='cupy'):
    xp = get_array_module(input_data)
    txp, target_backend = get_backend(backend)
    if xp == txp:
        return input_data
    return txp.array(input_data)

def move_to_cpu(input_data):
    xp = get_array_module(input_data)
    if xp == LIBRARIES['numpy']:
        return input_data
    elif xp == LIBRARIES['cupy']:
        return input_data.get()
    elif xp == LIBRARIES['tensorflow']:
        return input_data.numpy()
    raise ValueError('Cannot identify the array type.')

def convert_to_tensor(input_data):
    if not import_torch:
        raise ImportError('Required version of Torch package not found' + 'see documentation for details: https://cea-cosmic.' + 'github.io/ModOpt/#optional-packages')
    xp = get_array_module(input_data)
    if xp == np:
        return torch.Tensor(input_data)
    return torch_from_dlpack(input_data.toDlpack()).float()

def convert_to_cupy_array(input_data):
    if not import_torch:
        raise ImportError('Required version of Torch package not found' + 'see documentation for details: https://cea-cosmic.' + 'github.io/ModOpt/#optional-packages')
    if input_data.is_cuda:
        if LIBRARIES['cupy'] is None:
            raise ImportError('CuPy package not found.')
        return cp.fromDlpack(torch_to_dlpack(input_data))
    return input_data.detach().numpy()

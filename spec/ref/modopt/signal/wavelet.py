import shlex
import subprocess as sp
from datetime import datetime
from os import remove
from os.path import isfile
from random import getrandbits
import numpy as np
from modopt.base.np_adjust import rotate_stack
from modopt.interface.errors import is_executable
from modopt.math.convolve import convolve
try:
    from astropy.io import fits
except ImportError:
    import_astropy = False
else:
    import_astropy = True

def execute(command_line):
    if not isinstance(command_line, str):
        raise TypeError('Command line must be a string.')
    command = shlex.split(command_line)
    process = sp.Popen(command, stdout=sp.PIPE, stderr=sp.PIPE)
    stdout, stderr = process.communicate()
    return (stdout.decode('utf-8'), stderr.decode('utf-8'))

def call_mr_transform(input_data, opt='', path='./', remove_files=True):
    if not import_astropy:
        raise ImportError('Astropy package not found.')
    if not isinstance(input_data, np.ndarray) or input_data.ndim != 2:
        raise ValueError('Input data must be a 2D numpy array.')
    executable = 'mr_transform'
    is_executable(executable)
    unique_string = datetime.now().strftime('%Y.%m.%d_%H.%M.%S') + str(getrandbits(128))
    file_name = f'{path}mr_temp_{unique_string}'
    file_fits = f'{file_name}.fits'
    file_mr = f'{file_name}.mr'
    if isinstance(opt, str):
        opt = opt.split()
    try:
        fits.writeto(file_fits, input_data)
        command_line = shlex.join([executable, *opt, file_fits, file_mr])
        stdout, _ = execute(command_line)
        if any((word in stdout for word in ('bad', 'Error', 'Sorry'))):
            message = '{0} raised following exception: "{1}"'
            raise RuntimeError(message.format(executable, stdout.rstrip('\n')))
        data_trans = fits.getdata(file_mr).astype(input_data.dtype)
    finally:
        if remove_files:
            for temp_file in (file_fits, file_mr):
                if isfile(temp_file):
                    remove(temp_file)
    return data_trans

def trim_filter(filter_array):
    non_zero_indices = np.array(np.where(filter_array != 0))
    min_idx = np.min(non_zero_indices, axis=-1)
    max_idx = np.max(non_zero_indices, axis=-1)
    return filter_array[min_idx[0]:max_idx[0] + 1, min_idx[1]:max_idx[1] + 1]

def get_mr_filters(data_shape, opt='', coarse=False, trim=False):
    data_shape = np.array(data_shape)
    data_shape += data_shape % 2 - 1
    fake_data = np.zeros(data_shape)
    fake_data[tuple(zip(data_shape // 2))] = 1
    mr_filters = call_mr_transform(fake_data.astype(float), opt=opt)
    if trim:
        mr_filters = np.array([trim_filter(filt) for filt in mr_filters])
    if coarse:
        return mr_filters
    return mr_filters[:-1]

def filter_convolve(input_data, filters, filter_rot=False, method='scipy'):
    if filter_rot:
        return np.sum([convolve(coef, filt, method=method) for coef, filt in zip(input_data, rotate_stack(filters))], axis=0)
    return np.array([convolve(input_data, filt, method=method) for filt in filters])

def filter_convolve_stack(input_data, filters, filter_rot=False, method='scipy'):
    return np.array([filter_convolve(elem, filters, filter_rot=filter_rot, method=method) for elem in input_data])

import os
import sys
import warnings
try:
    from termcolor import colored
except ImportError:
    import_fail = True
else:
    import_fail = False

def warn(warn_string, log=None):
    if import_fail:
        warn_txt = 'WARNING'
    else:
        warn_txt = colored('WARNING', 'yellow')
    sys.stderr.write(f'{warn_txt}: {warn_string}\n')
    if not isinstance(log, type(None)):
        warnings.warn(warn_string, stacklevel=2)

def catch_error(exception, log=None):
    if import_fail:
        err_txt = 'ERROR'
    else:
        err_txt = colored('ERROR', 'red')
    stream_txt = f'{err_txt}: {exception}\n'
    sys.stderr.write(stream_txt)
    if not isinstance(log, type(None)):
        log_txt = f'ERROR: {exception}\n'
        log.exception(log_txt)

def file_name_error(file_name):
    if file_name == '' or file_name[0][0] == '-':
        raise OSError('Input file name not specified.')
    elif not os.path.isfile(file_name):
        raise OSError(f'Input file name {file_name} not found!')

def is_exe(fpath):
    return os.path.isfile(fpath) and os.access(fpath, os.X_OK)

def is_executable(exe_name):
    if not isinstance(exe_name, str):
        raise TypeError('Executable name must be a string.')
    fpath, fname = os.path.split(exe_name)
    if fpath:
        res = is_exe(exe_name)
    else:
        res = any((is_exe(os.path.join(path, exe_name)) for path in os.environ['PATH'].split(os.pathsep)))
    if not res:
        message = '{0} does not appear to be a valid executable on this system.'
        raise OSError(message.format(exe_name))

PROPS = ["C22"]
import numpy as np
from modopt.base import backend as bk
from modopt.interface import errors as er, log as lg
from modopt.signal import wavelet as sw


def p_backend(b):
    return bk.get_backend(b)


def p_backend_lit():
    return bk.get_backend("numpy"), bk.get_backend("cupy"), bk.get_backend("foo")


@probe("C22", env="free")
def p_backend_free(b):
    return bk.get_backend(b)


@probe("C22", env="free")
def p_backend_free_lit():
    return bk.get_backend("cupy"), bk.get_backend("tensorflow"), bk.get_backend("numpy")


def p_module(x):
    return bk.get_array_module(x)


@probe("C22", env="free")
def p_module_free(x):
    return bk.get_array_module(x)


def p_change(x, b):
    return bk.change_backend(x, b)


def p_change_def(x):
    return bk.change_backend(x)


@probe("C22", env="free")
def p_change_free(x):
    return bk.change_backend(x)


@probe("C22", env="free")
def p_change_free_b(x, b):
    return bk.change_backend(x, backend=b)


def p_cpu(x):
    return bk.move_to_cpu(x)


@probe("C22", env="free")
def p_cpu_free(x):
    return bk.move_to_cpu(x)


def p_tensor(x: array):
    return bk.convert_to_tensor(x)


@probe("C22", env="free")
def p_tensor_free(x):
    return bk.convert_to_tensor(x)


@probe("C22")
def p_cupy(x):
    return bk.convert_to_cupy_array(x)


@probe("C22", env="free")
def p_cupy_free(x):
    return bk.convert_to_cupy_array(x)


# ------------------------------------------------------------------ messages
@probe("C21")
def p_warn(t: str):
    return er.warn(t)


@probe("C21")
def p_warn_log(t: str, l):
    return er.warn(t, log=l)


@probe("C21", env="free")
def p_warn_free(t: str):
    return er.warn(t)


@probe("C21")
def p_catch(e):
    return er.catch_error(e)


@probe("C21")
def p_catch_log(e, l: handle):
    return er.catch_error(e, log=l)


@probe("C21")
def p_catch_logpos(e, l):
    return er.catch_error(e, l)


@probe("C21", env="free")
def p_catch_free(e):
    return er.catch_error(e)


@probe("C24", "C19")
def p_fname(f: str):
    return er.file_name_error(f)


@probe("C24", "C19")
def p_is_exe(f: str):
    return er.is_exe(f)


@probe("C24", "C19")
def p_is_executable(f):
    return er.is_executable(f)


@probe("C24", "C19")
def p_is_executable_s(f: str):
    return er.is_executable(f)


# ------------------------------------------------------------------ log
@probe("C24")
def p_log_setup(f: str):
    l = lg.set_up_log(f)
    return l


@probe("C24", "C21")
def p_log_setup_v(f: str, v):
    l = lg.set_up_log(f, verbose=v)
    return l


@probe("C24")
def p_log_close(l: handle):
    return lg.close_log(l)


@probe("C24", "C21")
def p_log_close_v(l: handle, v):
    return lg.close_log(l, verbose=v)


@probe("C24")
def p_log_cycle(f: str):
    l = lg.set_up_log(f, verbose=False)
    lg.close_log(l, verbose=False)


# ------------------------------------------------------------------ external program
@probe("C24", "C19")
def p_execute(c):
    return sw.execute(c)


@probe("C24")
def p_execute_s(c: str):
    return sw.execute(c)


@probe("C24")
def p_mr(x: array):
    return sw.call_mr_transform(x)


@probe("C24")
def p_mr_opts(x: array, o: str, p: str, r):
    return sw.call_mr_transform(x, opt=o, path=p, remove_files=r)


@probe("C24")
def p_mr_optlist(x: array, o1: str, o2: str, p: str):
    return sw.call_mr_transform(x, [o1, o2], p, True)


@probe("C24")
def p_mr_optany(x: array, o: list):
    return sw.call_mr_transform(x, opt=o)


@probe("C24", "C19")
def p_mr_any(x):
    return sw.call_mr_transform(x)


@probe("C24", "C22", env="free")
def p_mr_free(x: array):
    return sw.call_mr_transform(x)


@probe("C24")
def p_mr_faults(x: array, p: str):
    FAULTS(True)
    return sw.call_mr_transform(x, path=p)


@probe("C24")
def p_mr_faults_keep(x: array, o: str):
    FAULTS(True)
    return sw.call_mr_transform(x, o, remove_files=False)


@probe("C24", "C16")
def p_filters(s, o: str, c, t):
    return sw.get_mr_filters(s, o, c, t)


@probe("C24", "C16")
def p_filters_def(a: int, b: int):
    return sw.get_mr_filters((a, b))


@probe("C24", "C16")
def p_filters_coarse(a: int, b: int, o: str):
    return sw.get_mr_filters((a, b), opt=o, coarse=True)


@probe("C24", "C16")
def p_filters_trim(a: int, b: int, o: str):
    return sw.get_mr_filters((a, b), opt=o, trim=True)

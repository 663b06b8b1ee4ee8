PROPS = ["C15"]
import numpy as np
from modopt.base import transform as tr, np_adjust as na, types as ty


def p_cube2map(x: array, l):
    return tr.cube2map(x, l)


def p_cube2map_22(x: array):
    return tr.cube2map(x, (2, 2))


def p_cube2map_23(x: array):
    return tr.cube2map(x, (2, 3))


def p_map2cube(x: array, l):
    return tr.map2cube(x, l)


def p_map2cube_23(x: array):
    return tr.map2cube(x, (2, 3))


def p_map2matrix(x: array, l):
    return tr.map2matrix(x, l)


def p_map2matrix_23(x: array):
    return tr.map2matrix(x, (2, 3))


def p_matrix2map(x: array, s):
    return tr.matrix2map(x, s)


def p_matrix2map_c(x: array):
    return tr.matrix2map(x, (4, 6))


def p_cube2matrix(x: array):
    return tr.cube2matrix(x)


def p_matrix2cube(x: array, s):
    return tr.matrix2cube(x, s)


def p_matrix2cube_c(x: array, a: int, b: int):
    return tr.matrix2cube(x, (a, b))


def p_roundtrip(x: array, a: int, b: int):
    return tr.matrix2cube(tr.cube2matrix(x), (a, b))


def p_rotate(x: array):
    return na.rotate(x), na.rotate_stack(x)


def p_pad2d(x: array, p):
    return na.pad2d(x, p)


def p_pad2d_c(x: array, p: int, a: int, b: int):
    return na.pad2d(x, p), na.pad2d(x, (a, b)), na.pad2d(x, [a, b]), na.pad2d(x, [a])


def p_pad2d_arr(x: array, p: array):
    return na.pad2d(x, p)


def p_ft(x: array, r: int):
    return na.ftr(x), na.ftl(x), na.fancy_transpose(x), na.fancy_transpose(x, roll=r)


@probe("C19")
def p_check_callable(f):
    return ty.check_callable(f)


@probe("C19")
def p_check_float(x):
    return ty.check_float(x)


@probe("C19")
def p_check_float_k(x: array, y: list, z: int, w: scalar):
    return ty.check_float(x), ty.check_float(y), ty.check_float(z), ty.check_float(w), ty.check_float((z, w))


@probe("C19")
def p_check_int(x):
    return ty.check_int(x)


@probe("C19")
def p_check_int_k(x: array, y: list, z: int, w: scalar):
    return ty.check_int(x), ty.check_int(y), ty.check_int(z), ty.check_int(w), ty.check_int((z, w))


@probe("C19", "C12")
def p_check_np(x, d, w, v):
    r = ty.check_npndarray(x, dtype=d, writeable=w, verbose=v)
    return r, x.flags.writeable


@probe("C19", "C12")
def p_check_np_default(x: array):
    ty.check_npndarray(x)
    return x.flags.writeable


@probe("C25")
def p_check_np_warns(x: array):
    ty.check_npndarray(x, writeable=False)
    return x.flags.writeable


@probe("C19", "C12")
def p_check_np_pos(x: array, d):
    ty.check_npndarray(x, d, False, False)
    return x.flags.writeable

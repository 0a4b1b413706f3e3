"""A stand-in for CuPy where no GPU is present: the same functions on host arrays."""
from numpy import *          # noqa
from numpy import allclose, array, asarray, dot, eye, kron, ndarray, ones, zeros  # noqa


def asnumpy(a):
    return asarray(a)

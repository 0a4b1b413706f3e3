from scipy.sparse import *  # noqa
from scipy.sparse import csr_matrix, eye, kron  # noqa

"""Stand-in for PyTorch (see s_c10.py): tensors are NumPy arrays."""
import wfsim_import

wfsim_import.point("torch")
from numpy import *  # noqa
from numpy import abs, max, min  # noqa
from numpy import ndarray as Tensor  # noqa

wfsim_import.point("torch end")

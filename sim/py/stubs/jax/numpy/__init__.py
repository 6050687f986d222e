import wfsim_import

wfsim_import.point("jax.numpy")
from numpy import *  # noqa
from numpy import abs, max, min, float32, float64, int32, int64  # noqa

wfsim_import.point("jax.numpy end")

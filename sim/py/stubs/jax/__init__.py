"""Stand-in for JAX (see s_c10.py): arrays are NumPy arrays."""
import wfsim_import

wfsim_import.point("jax")

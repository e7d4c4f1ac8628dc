from . import u_core
from . import u_params
from . import u_stats
from . import u_ok, u_uk, u_cy, u_exec, u_model, u_vario, u_drift, u_wrap, u_grid, leanlem

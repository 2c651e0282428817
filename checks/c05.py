from .scal import goals_c05 as goals, pool_c05 as pool  # noqa: F401

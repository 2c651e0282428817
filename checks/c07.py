from .scal import goals_c07 as goals, pool_c07 as pool  # noqa: F401

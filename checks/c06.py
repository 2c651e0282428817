from .scal import goals_c06 as goals, pool_c06 as pool  # noqa: F401

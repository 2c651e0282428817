from .scal import goals_c04 as goals, pool_c04 as pool  # noqa: F401

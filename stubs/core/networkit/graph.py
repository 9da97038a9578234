from . import Graph  # noqa: F401

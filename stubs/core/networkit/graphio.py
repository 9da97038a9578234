from . import writeGraph, readGraph, Format  # noqa: F401

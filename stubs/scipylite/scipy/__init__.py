"""The few scipy functions the code uses, for the interpreter that has no scipy."""
from vdoubles_base import unsupported
from . import special, spatial, stats  # noqa: F401
__getattr__ = unsupported('scipy')

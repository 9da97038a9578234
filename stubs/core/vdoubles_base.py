"""Shared by every test double: anything the double does not model is reported as a
limit of the harness (exit 2), never as a property violation."""


class DoubleUnsupported(Exception):
    pass


def unsupported(module):
    def __getattr__(name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise DoubleUnsupported('%s.%s is not modelled by the test double' % (module, name))
    return __getattr__

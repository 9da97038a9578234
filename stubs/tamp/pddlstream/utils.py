import os
from vdoubles_base import unsupported
INF = float('inf')


def read(filename):
    with open(filename) as f:
        return f.read()


def get_file_path(file, rel_path):
    return os.path.join(os.path.dirname(os.path.abspath(file)), rel_path)


def negate_test(test):
    return lambda *a, **k: not test(*a, **k)


__getattr__ = unsupported('pddlstream.utils')

import argparse
from vdoubles_base import unsupported


def create_parser(default_algorithm='adaptive'):
    p = argparse.ArgumentParser()
    p.add_argument('-a', '--algorithm', type=str, default=default_algorithm)
    p.add_argument('-u', '--unit', action='store_true')
    return p


SOLVED = []


def solve(problem, **kw):
    SOLVED.append((problem, kw))
    return None, float('inf'), []


__getattr__ = unsupported('pddlstream.algorithms.meta')

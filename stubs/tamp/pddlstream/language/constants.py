from collections import namedtuple
from vdoubles_base import unsupported
PDDLProblem = namedtuple('PDDLProblem', ['domain_pddl', 'constant_map', 'stream_pddl', 'stream_map', 'init', 'goal'])
AND, OR, NOT, EXISTS, FORALL = 'and', 'or', 'not', 'exists', 'forall'


def Output(*args):
    return tuple(args)


def And(*expressions):
    if len(expressions) == 1:
        return expressions[0]
    return (AND,) + tuple(expressions)


def Not(expression):
    return (NOT, expression)


def print_solution(solution):
    print(solution)


__getattr__ = unsupported('pddlstream.language.constants')

from collections import namedtuple
PDDLProblem = namedtuple('PDDLProblem', ['domain_pddl', 'constant_map', 'stream_pddl', 'stream_map', 'init', 'goal'])


def And(*e):
    return e[0] if len(e) == 1 else ('and',) + tuple(e)


def Output(*a):
    return tuple(a)


def print_solution(solution):
    plan = solution[0]
    print()
    print('Solved: {}'.format(plan is not None))
    print('Cost: {:.3f}'.format(solution[1]))
    print('Length: {}'.format(len(plan) if plan is not None else float('inf')))

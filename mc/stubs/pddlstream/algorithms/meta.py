import argparse
from mc.core import StubLimit

SOLVER = None            # optional: fn(problem, **options) -> (plan, cost, evaluations)


def solve(problem, *a, **k):
    if SOLVER is None or a:
        raise StubLimit('solve')
    return SOLVER(problem, **k)


def create_parser(default_algorithm='adaptive'):
    parser = argparse.ArgumentParser()
    parser.add_argument('-a', '--algorithm', type=str, default=default_algorithm,
                        choices=['abstract_focused', 'adaptive', 'binding', 'focused', 'incremental'])
    parser.add_argument('-u', '--unit', action='store_true')
    return parser

import os
INF = float('inf')


def read(path):
    with open(path) as f:
        return f.read()


def get_file_path(file, rel):
    return os.path.join(os.path.dirname(os.path.abspath(file)), rel)


def negate_test(f):
    return lambda *a, **k: not f(*a, **k)

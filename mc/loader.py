"""Puts the code under test (REPO) and the stand-ins for packages that are not installed on sys.path."""
import os, sys
from mc.core import REPO, VERIF

sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
_here = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(_here, 'stubs')
FALLBACK = os.path.join(_here, 'stubs_fallback')     # used only when the real package is missing
for p in (REPO, STUBS):
    if p not in sys.path:
        sys.path.insert(0, p)
if FALLBACK not in sys.path:
    sys.path.append(FALLBACK)
TEMP = os.path.join(REPO, 'temp')


def ensure_temp():
    """The roadmaps keep their cache files in <repo>/temp, which is part of the checkout (git-ignored)."""
    created = False
    if not os.path.isdir(TEMP):
        os.makedirs(TEMP)
        created = True
    return set(os.listdir(TEMP)), created


def clean_temp(before):
    names, created = before
    if os.path.isdir(TEMP):
        for f in set(os.listdir(TEMP)) - names:
            try:
                os.remove(os.path.join(TEMP, f))
            except OSError:
                pass
        if created:
            try:
                os.rmdir(TEMP)
            except OSError:
                pass


def private_package(block=()):
    """Import nonasymptotic from a private copy of REPO (made now, from the working tree) with its own temp
    directory, so that parallel parts do not see each other's cache files. Returns the directory."""
    import shutil, tempfile, atexit
    for m in list(sys.modules):
        if m == 'nonasymptotic' or m.startswith('nonasymptotic.'):
            del sys.modules[m]
    for m in block:
        sys.modules[m] = None            # as if it were not installed
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    d = tempfile.mkdtemp(prefix='verif-prm-', dir=base)
    shutil.copytree(os.path.join(REPO, 'nonasymptotic'), os.path.join(d, 'nonasymptotic'),
                    ignore=shutil.ignore_patterns('__pycache__'))
    os.makedirs(os.path.join(d, 'temp'))
    sys.path.insert(0, d)
    return d


def drop_private(d):
    import shutil
    if d in sys.path:
        sys.path.remove(d)
    for m in list(sys.modules):
        if m == 'nonasymptotic' or m.startswith('nonasymptotic.'):
            del sys.modules[m]
    assert os.path.basename(d).startswith('verif-prm-')
    shutil.rmtree(d, ignore_errors=True)


TAMP = {'turtlebot_move': ('separating_axis', 'streams', 'problems', 'run'),
        'kuka_carry': ('separating_axis', 'kuka_primitives', 'run')}


def tamp_module(domain, name):
    """Import a module of one of the planning domains; both domains use the same top-level module names."""
    import importlib
    d = os.path.join(REPO, 'exps', 'tamp_environment', domain)
    for names in TAMP.values():
        for n in names:
            m = sys.modules.get(n)
            if m is not None and not getattr(m, '__file__', '').startswith(d + os.sep):
                del sys.modules[n]
    for other in TAMP:
        o = os.path.join(REPO, 'exps', 'tamp_environment', other)
        while o in sys.path:
            sys.path.remove(o)
    sys.path.insert(0, d)
    return importlib.import_module(name)

"""Stand-in for the few scipy functions this project uses; only on the path when scipy is not installed."""
from . import special, stats, spatial
__version__ = '0-standin'

"""Stand-in for pddlstream: only what building a problem and a plan translation needs; `solve` is not modelled."""

"""Stand-in for pybullet_tools: a small world of boxes, cylinders and jointed robots, without a physics engine."""

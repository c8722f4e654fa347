"""Writes properties.jsonl (run by hand; kept so that the file is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=None)))
ENV='nonasymptotic/envs.py'; PRM='nonasymptotic/prm.py'; BND='nonasymptotic/bound.py'; ANN='nonasymptotic/ann.py'
UT='nonasymptotic/util.py'; SMP='nonasymptotic/sampler.py'; NPT='exps/run_narrow_passage_clearance_trial.py'
KNT='exps/run_knn_radius_trial.py'; SLT='exps/run_straight_line_optimality_trial.py'; SUB='exps/submit_and_run_experiment_job.py'
TB='exps/tamp_environment/turtlebot_move/'; KU='exps/tamp_environment/kuka_carry/'

prop('C01','Narrow passage: motion verdicts are exact',
 'In the narrow-passage environment (two unit boxes joined by a corridor of half-width `clearance`, in every dimension from 2 up), a straight motion between two points of the free space is reported valid exactly when no point of it lies inside or touches one of the wall blocks that separate the boxes, and a motion with an endpoint outside the free space is never reported valid. The verdict is the same when start and goal are exchanged, and each motion of a batch is judged independently of the others. The points passed in are left as they were.',
 ['inputs','configurations'],'every pair of endpoints, every dimension >= 2, every clearance, every batch',
 'The tests check a handful of motions in two dimensions; the claim is about all segments, above all those that graze, run parallel to or start inside a wall, in any dimension.',
 [ENV,UT],[('per-plane wall tests','NarrowPassage.is_motion_valid'),('segment test','detect_intersect')],['return value of NarrowPassage.is_motion_valid'])
prop('C02','Gray-code corridor: motion verdicts are exact',
 'In the Gray-code corridor of cubes, a straight motion between two points of the free space is reported valid exactly when the whole segment stays in the union of the cubes, passes between cubes only through the open faces and keeps at least the wall thickness away from every wall (segments that merely touch a face, an edge or a wall surface may go either way). The verdict does not depend on the direction of travel, and the points passed in are left as they were.',
 ['inputs','configurations'],'every pair of free points in the same, adjacent or distant cubes; every dimension, length and wall thickness',
 'The tests try a few dozen segments in two fixed corridors; correctness depends on the sequence of cubes crossed, which grows with the corridor.',
 [ENV],[('walk through the cubes crossed','GrayCodeWalls.is_motion_valid'),('wall distance in a given cube','GrayCodeWalls._distance_to_wall_in_cube')],['return value of GrayCodeWalls.is_motion_valid'])
prop('C03','Straight-line tube: validity, volume and path distance are exact',
 'The straight-line environment is the closed box of points within `clearance` (in the maximum norm) of a segment of the requested length along the first axis: a motion is valid exactly when both endpoints are in that box, whether passed one by one or as a batch. Its reported volume is the volume of that box, and the reported distance of points to the path is their Euclidean distance to that segment. The points passed in are left as they were.',
 ['inputs','configurations'],'all points, dimensions, lengths and clearances (zero included)',
 'No existing test touches this environment at all.',
 [ENV],[('box bounds','StraightLine.__init__'),('bound comparison','StraightLine.is_motion_valid'),('projection','StraightLine.distance_to_path')],['StraightLine.is_motion_valid','StraightLine.volume','StraightLine.distance_to_path'])
prop('C04','Segment intersection is exact',
 'Two closed planar line segments are reported as intersecting exactly when they share at least one point, including crossing, touching, parallel, collinear (overlapping or apart) and single-point segments. The answer does not change when the segments, or the endpoints of one, are exchanged, and batches (many against one, one against many, many against many) give the same answers as one pair at a time.',
 ['inputs'],'all quadruples of endpoints and all batch shapes',
 'There is no direct test; degenerate configurations (collinear, parallel, points) are measure-zero inputs which sampled motions do not reach.',
 [UT],[('vectorised casework','detect_intersect')],['return value of detect_intersect'])
prop('C05','Environment samples are free and uniform over the free boxes',
 'Every state sampled from an environment lies in its free space, whatever the random source answers. Each box of the decomposition (the tube; the two rooms and the hallway; each cube centre and each open doorway of the Gray-code corridor) is chosen with probability proportional to its volume, and within a box the sample is an affine image of independent uniform variables that covers the whole box; the reported free volume is the sum of the box volumes.',
 ['inputs','configurations'],'every answer of the random source, every dimension, clearance, length and thickness',
 'Tests draw a number of samples from one seeded generator; a wrong weight or a region sampled into a wall only shows on some draws and some parameters.',
 [ENV],[('region choice','sample_from_env'),('region to world transform','GrayCodeWalls._transform_sample_to_global_frame')],['sample_from_env','volume'])
prop('C06','Reference curves are continuous, unit-speed and inside free space',
 'For every environment the reference curve, as a function of normalised arc length in [0, 1], starts and ends at the documented endpoints, moves at constant speed (equal parameter steps give equal arc length), is continuous, stays in free space, and is clamped outside [0, 1]. Where a distance to the path is offered, it equals the Euclidean distance to that same curve, which has as many coordinates as the environment has dimensions, and the points asked about are left as they were.',
 ['inputs','configurations'],'every parameter value, dimension, corridor length and thickness',
 'Tests evaluate a few parameter values on two fixed corridors.',
 [ENV],[('leg selection and interpolation','arclength_to_curve_point'),('projection','distance_to_path')],['arclength_to_curve_point','distance_to_path','start_point','end_point','get_curve_arclength'])
prop('C07','Gray-code corridor: one simple path through all cubes, exact wall distance',
 'The corridor visits every cube of the grid exactly once along one simple path of face-adjacent cubes, starting at the origin cube, and the first coordinate never decreases along it. The reported distance to the wall of a point is the distance to the nearest wall plane of its cube minus the wall thickness, faces shared with the previous or next cube on the path not counting as walls; it is non-negative exactly on free points, and the point asked about is left as it was.',
 ['inputs','configurations'],'every dimension, length, thickness and point',
 'The tests fix dim 3/length 4 and dim 2; the path alternates direction with the parity of the length and grows exponentially with the dimension.',
 [ENV],[('Gray code snake','GrayCodeWalls.__init__'),('wall distance','GrayCodeWalls.distance_to_wall')],['no_walls_linear_list','no_walls_graph','distance_to_wall'],
 [('corridor graph','directed path of cubes','GrayCodeWalls.no_walls_graph')])
prop('C08','Polygon sampler is uniform over the region and never outside it',
 'A point drawn from a polygon or multi-polygon with holes (nested holes with islands included) always lies in the region, for every answer of the random source. The region is cut into triangles that cover it exactly without overlap, each chosen with probability proportional to its area, and the point is uniform within the chosen triangle.',
 ['inputs'],'every polygon with holes and islands in the bounded input space; every answer of the random source',
 'The sampler has no test; a misplaced hole or a skewed triangle map gives wrong samples only for particular topologies and draws.',
 [SMP],[('hole points, triangulation, area weights','random_point_in_mpolygon')],['return value of random_point_in_mpolygon'])
prop('C09','Fully connected radius roadmap is exact after any operation history',
 'After any sequence of growing, changing the connection radius, querying and resetting, the roadmap has exactly one vertex per sample and exactly the edges between distinct samples that are within the current radius and whose motion is valid, each weighted by the Euclidean distance of its ends. Growing keeps the existing samples in order, draws exactly the missing ones, refuses to shrink, and reports exactly the lengths of the edges present.',
 ['histories','inputs'],'all histories of grow/set radius/query/reset, all sample positions and validity relations',
 'There is no test of any roadmap; stale edges or vertices appear only after particular sequences of operations.',
 [PRM],[('all-pairs construction','SimpleFullConnRadiusPRM.grow_to_n_samples'),('rebuild on radius change','SimpleFullConnRadiusPRM.set_connection_radius')],['prm_graph','prm_samples','num_vertices','num_edges'],
 [('roadmap','graph of samples','SimpleFullConnRadiusPRM.prm_graph')])
prop('C10','k-nearest-neighbour roadmap is exact after any operation history',
 'After any sequence of growing, lowering or raising the neighbour count (up to that used at the last growth), lowering or raising the radius and resetting, the roadmap has one vertex per sample and an edge between two distinct samples exactly when at least one is among the other\'s k nearest for the current k, the motion is valid, and their distance is below the current radius if one is set (distances equal to the radius may go either way); edge weights are the distances. Growing clears the radius, and reports as certified radius the smallest distance of any sample to its farthest listed neighbour, together with the sorted distinct neighbour distances.',
 ['histories','inputs'],'all histories of grow/set neighbours/set radius/reset; all sample positions and validity relations; both kinds of neighbour lists (with and without the point itself)',
 'There is no test of any roadmap; the in-place pruning and reloading of a cached graph can only be judged over histories.',
 [PRM],[('master graph cache','SimpleNearestNeighborRadiusPRM.grow_to_n_samples'),('prune','set_nearest_neighbors, set_connection_radius')],['prm_graph','return value of grow_to_n_samples'],
 [('master graph','cached roadmap reloaded when a setting is raised','tmp_graph_cache_path')])
prop('C11','Threshold radius roadmap is exact after growth and queries',
 'For the roadmap that doubles its neighbour count until the radius is covered, after any sequence of growing, querying and resetting there is one vertex per sample and no edge is longer than the connection radius or an invalid motion. As long as the neighbour cap is not reached, the edges are exactly the pairs of distinct samples closer than the radius with a valid motion, weighted by distance.',
 ['histories','inputs'],'all histories of grow/query/reset; all sample positions and validity relations; radius and neighbour cap',
 'There is no test of any roadmap; the incremental growth path and its interaction with queries is never executed.',
 [PRM,ANN],[('doubling and incremental merge','SimpleRadiusPRM.grow_to_n_samples')],['prm_graph','prm_samples'])
prop('C12','Roadmap queries return true shortest valid paths and leave no trace',
 'A query returns the length of a shortest path from start to goal through the roadmap, start and goal being linked to every sample within the connection radius that they can reach by a valid motion, together with the intermediate samples of one such path in order (each leg valid, leg lengths summing to the returned length); when there is none the path is empty and the length unusable as a real length. Queries leave samples, vertices and edges of the roadmap unchanged and the same query gives the same answer again. Listing all graph connections gives every pair of an entry and an exit sample, with the shortest roadmap distance between them.',
 ['inputs','histories'],'all roadmaps, all start/goal pairs, all earlier histories of queries and updates, all three roadmap kinds',
 'No test performs a query.',
 [PRM],[('temporary start/goal vertices','SimplePRM.query_best_solution'),('pair table','SimplePRM.query_all_graph_connections'),('distance lookup','_compute_spsp, _distance_in_graph')],['query_best_solution','query_all_graph_connections'])
prop('C13','Roadmaps do not interfere; caches and saved files are faithful and cleaned up',
 'Roadmaps alive at the same time behave as if each were alone, under every interleaving of their operations. A reset discards samples and roadmap and removes the roadmap\'s temporary files, a reset roadmap can be grown again from nothing, and resetting twice or before the first growth is harmless. Saving writes a graph and a sample array that read back as the current roadmap, and saving a roadmap that was never grown raises an error instead of writing.',
 ['histories','schedules'],'all interleavings of the operations of two roadmaps; all histories with save and reset',
 'No test creates a roadmap, let alone two.',
 [PRM],[('per-object cache file','tmp_graph_cache_path'),('cleanup','reset'),('persistence','save')],['file system','prm_graph','prm_samples'])
prop('C14','Neighbour-search adapters report true neighbours and distances',
 'Whatever backend is chosen, the neighbour lists and distances handed to the roadmaps are those of the backend\'s graph: row i belongs to sample i, each listed distance is the Euclidean distance between the two samples, rows are sorted by distance and have the requested number of neighbours. Updating with fresh data gives the same lists as building from the concatenated data, an update before a build is an error, and asking for an unavailable backend falls back to an available one. Once its adapter is gone, a search leaves no file behind.',
 ['inputs','histories'],'all point sets, dimensions (multiples of four or not), neighbour counts and build/update histories',
 'The backends are not even installed where the tests run.',
 [ANN],[('padding, text parsing and distance conversion','KGraphANN.new_graph_from_data'),('append','KGraphANN.update_graph_with_data'),('fallback','get_ann')],['new_graph_from_data','update_graph_with_data','get_ann'])
prop('C15','Sample-count bound is the least sufficient count, and is always found',
 'The number of samples returned for a clearance, tolerance, volume, dimension and success probability makes the Sauer-Shelah failure bound at most the allowed failure probability, and no smaller count of two or more on the decreasing branch does; the search terminates for every input, also when the answer is astronomically large, and rejects success probabilities outside (0, 1). The returned count does not increase when clearance or tolerance grows or when volume or success probability shrinks, and the returned connection radius is the documented function of clearance and tolerance.',
 ['inputs'],'all clearances, tolerances (or none), volumes, dimensions and success probabilities; all unimodal bound functions',
 'No test covers the bounds; off-by-one and non-termination appear only for particular magnitudes.',
 [BND],[('doubling and bisection','doubling_sample_search_over_log2_prob_bound'),('bound','compute_sauer_shelah_bound_log2')],['compute_numerical_bound','compute_connection_radius','doubling_sample_search_over_log2_prob_bound'])
prop('C16','Effective-radius tail bounds are valid upper bounds',
 'For all sample counts, neighbour counts, radii, dimensions and volumes, each offered bound on the probability that a radius fails to be an effective connection radius is at least the exact union bound, samples times the binomial tail of k or more of the other samples in a ball of that radius, is no weaker than the inequality it is named after (Hoeffding, Chernoff, Chernoff in its divergence form), and does not decrease as the radius grows. The closed-form effective radius, where defined, has an exact failure probability of at most the requested one and is no smaller than the expression of Corollary 1.',
 ['inputs'],'all sample counts, neighbour counts, radii, dimensions, volumes and failure probabilities',
 'No test covers the bounds; a wrong factor still returns plausible numbers.',
 [BND],[('Hoeffding and Chernoff forms','compute_tail_knn_radius_log_prob_*'),('Corollary 1','compute_eff_conn_rad_bound')],['return values'])
prop('C17','Radius searches return the largest certified radius',
 'Given a failure bound that increases strictly with the radius, the radius search returns a radius in the given interval that satisfies the allowed failure probability whenever any searched radius does, and that is within the tolerance of the largest such radius; it always terminates. The net radius computed from a sample count and failure probability is the radius at which the sample-count failure bound equals that probability (for the sample count divided by the magnitude correction and rounded up, when one is given).',
 ['inputs'],'all increasing bound functions, intervals, tolerances and probabilities',
 'No test covers the searches.',
 [BND],[('bisection','halving_radius_search_over_log_prob_bound'),('linear search','linear_radius_search_over_prob_bound'),('inverse','compute_net_radius_from_prob')],['return values'])
prop('C18','Planar convex overlap test is exact',
 'Two convex polygons are reported as overlapping exactly when they share a point (polygons that merely touch along slanted edges may go either way); the batched version (equal vertex counts) answers each pair as the single version does, independently of the other pairs of the batch. The answer does not depend on the order of the two polygons, their orientation or their starting vertex.',
 ['inputs'],'all pairs of convex polygons and all batches',
 'No test covers it; the separating direction may be any edge normal of either polygon.',
 [TB+'separating_axis.py'],[('separating axes','separating_axis_theorem, vec_separating_axis_theorem')],['return values'])
prop('C19','Oriented box overlap test is exact in space',
 'Two oriented boxes given by centre, half extents and rotation are reported as colliding exactly when they share a point, in particular for rotated boxes with unequal extents; the corners computed for a box are the centre plus or minus the half extents along the rotated axes. The answer is independent of the order of the boxes and of the other pairs of the batch.',
 ['inputs'],'all pairs of oriented boxes and all batches',
 'No test covers it; wrong corners show only for rotated boxes with unequal sides, a missing axis only for edge-edge separation.',
 [KU+'separating_axis.py'],[('corners','compute_vertices_vectorized'),('fifteen axes','separating_axis_theorem')],['return values'])
prop('C20','Task-level motion planning only returns collision-free trajectories',
 'In the turtlebot domain a planned trajectory starts and ends at the requested configurations, and every leg of it has been accepted by the collision check, which itself accepts a straight base motion only if none of its checked intermediate footprints, both ends included, overlaps an obstacle; consecutive checked footprints are close together and the same holds for every motion of a batch, whose end points are left as they were. Planning grows the roadmap from the minimum to the maximum sample count, stops at the first success and otherwise reports failure; densifying a path keeps all its vertices in order and leaves no gap above the threshold.',
 ['inputs','histories'],'all obstacle layouts, motions, batches, sample budgets and outcomes of the roadmap queries',
 'The domain needs a simulator that is not installed; nothing tests it.',
 [TB+'streams.py',TB+'separating_axis.py'],[('footprint sweep','BagOfBoundingBoxes.is_motion_valid'),('anytime loop','get_anytime_motion_fn'),('densification','interpolate_vectors')],['is_motion_valid','the stream function','interpolate_vectors'])
prop('C21','Narrow-passage trial brackets the true connectivity threshold',
 'For every sample count of the schedule the trial reports one record; when the query becomes solvable at some rung of the ladder of neighbour counts or radii above the lowest and stays solvable above it, the reported failing and succeeding settings are adjacent rungs around that point (in ladders of at least two rungs, the top rung standing for the largest setting), and the reported path length belongs to the succeeding setting. When no setting is solvable the record says so and has no succeeding setting; every record names the parameters and seed of the trial.',
 ['inputs','configurations'],'every ladder size, every solvability threshold, both roadmap types, every schedule',
 'Nothing tests the experiments; bisection end conditions differ for each threshold and ladder size.',
 [NPT],[('bisection over the ladder','narrow_passage_clearance')],['returned table'])
prop('C22','Experiments: each task runs once; interrupted runs resume to the same result',
 'Over all task ids of a job array, every combination of the configured experiment is run exactly once. If a process is killed at any point, also while its result file is being written, and the same task is started again any number of times, the final result file holds the same rows, with the same parameters and seeds, as an uninterrupted run; trials within a task use distinct seeds.',
 ['crash_points','histories','configurations'],'every number of tasks, every crash point and torn write, repeated crashes, all three experiment scripts',
 'Nothing runs the experiment scripts; crash points cannot be sampled by unit tests.',
 [KNT,SLT,NPT],[('task slice','exp_combos[task_id::num_tasks]'),('resume','skip ahead by completed entries'),('result file','to_csv')],['outN.csv'])
prop('C23','Planning domains keep their physical invariants in every reachable state',
 'In both planning domains, from any initial state in which it holds: the robot is in exactly one configuration, each object is in exactly one place (one pose or held), at most one object is held and the hand is reported free exactly when nothing is held; an object only moves by pick and place and the robot only along motions certified for its current configuration, with the held object if it holds one; an object counts as clean only once it stood in a sink. Every goal of delivering all objects is reachable when the needed motions and placements exist, and translating a plan to commands attaches and detaches the right object along the right trajectory.',
 ['histories','configurations'],'all reachable states of the action systems for small numbers of objects, poses and configurations',
 'The planner is not installed; nothing tests the domain files.',
 [TB+'domain.pddl',TB+'stream.pddl',KU+'domain.pddl',KU+'stream.pddl',TB+'run.py'],[('actions','domain.pddl'),('certified facts','stream.pddl'),('plan translation','post_process')],['domain files','post_process'])
prop('C24','Job submission launches exactly the requested or resumed experiment',
 'Submitting creates a fresh results directory for the experiment with a copy of its configuration (with name and node triple) and a script that runs the program of the requested experiment type on that configuration and directory, and launches exactly that script with the requested triple; it never overwrites an existing experiment and launches nothing when the configuration is missing. Resuming launches the latest directory of exactly the named experiment with its stored triple, and nothing when there is none; the tuning sweep submits every listed setting whose processes times threads fit on 48 cores, and no other, each under a name of its own that tells the type, what is tuned and the triple.',
 ['inputs','histories'],'every experiment type, name, earlier set of result directories (including names that are prefixes of others) and triple',
 'Nothing tests the launch scripts.',
 [SUB,'exps/tune_experiment_triples.py'],[('directory set-up','submit_and_run_experiment_job.py'),('resume lookup','submit_and_run_experiment_job.py')],['file system','launched commands'])
prop('C25','Robot commands reverse and refine faithfully',
 'Reversing a manipulation command gives the command that undoes it: its segments in reverse order, each path traversed backwards, attaching exchanged with detaching, for the same bodies and attachments; reversing twice gives the original. Executing a command visits its configurations in order with the carried objects following at every step, and copies made by reversing or refining do not alter the original.',
 ['programs','histories'],'all commands made of paths, attachments and detachments up to a length',
 'The domain needs a simulator that is not installed; nothing tests it.',
 [KU+'kuka_primitives.py'],[('command algebra','Command, BodyPath, Attach, Detach')],['Command.reverse','Command.refine','Command.control','BodyPath.iterator'])
prop('C26','Hallway worlds are closed, connected and leave exactly the advertised gap',
 'For every robot scale and gap parameter, the walls of the generated hallway world enclose the two rooms and the hallway without leaks, do not block the hallway, and leave between the hallway walls exactly the advertised gap: the width of the widest thing to be moved plus the gap parameter. Start and goal lie in opposite rooms.',
 ['configurations','inputs'],'all robot scales and gap parameters, numbers of targets, all placements of targets',
 'The worlds need a simulator that is not installed; nothing tests them.',
 [TB+'problems.py'],[('wall placement','hallway, hallway_manip')],['created boxes and their positions'])
prop('C27','Neighbour-radius trial records the exact smallest neighbour distances',
 'For every sample count of the schedule and every neighbour count of the schedule below it, in whatever order and with whatever repetitions the schedules are given, the trial records exactly one row: the smallest distance, over a fresh set of that many samples of the straight-line environment of the requested dimension and clearance, from a sample to its nth listed neighbour (the nth nearest other sample with the preferred search backend; the nth entry of the list with the fallback, whose lists start with the sample itself). Counts with fewer samples than neighbours have no row, and every row names the parameters and the seed of the environment sampled.',
 ['inputs','configurations'],'every sample set, dimension, clearance, pair of schedules and search backend',
 'Nothing tests the experiments; off-by-one neighbour columns and skipped schedule entries depend on the order of the schedules.',
 [KNT],[('trial','knn_radius_trial')],['result table of the script'])
prop('C28','Straight-line trial brackets the smallest sufficient radius',
 'For every sample count of the schedule the straight-line trial reports one row. On the ladder of neighbour distances up to the certified radius (at least three of them), where the second-smallest is taken to fail and the largest to succeed, the reported failing and succeeding radii are adjacent rungs around the rung from which the optimality check succeeds (the last two if it never does). Each rung is checked at the tolerance for which its radius is the sufficient connection radius, with the configured options; a check that times out counts as failing and is mentioned in the row; every row names the parameters and seed used.',
 ['inputs','configurations'],'every ladder, certified radius, threshold, pattern of time-outs and schedule',
 'The optimality check of this environment is not implemented, so that the script cannot even be run in a test without scripting it.',
 [SLT],[('bisection over radii','straight_line_trial')],['result table of the script','arguments of the optimality check'])
prop('C29','Insertion motions of the arm never pass through the container',
 'Moving the held object into a container plans on motions that are rejected when the object overlaps a wall or the bottom of the container at either end or on a stretch of the motion, and accepted when the whole motion is clear of them, alone or in a batch; the poses passed in are left as they were. The planner grows the roadmap from the minimum to at most the maximum sample count and stops at the first success; the trajectory it returns starts and ends at the two given configurations and carries the object exactly along the checked way points, each leg of which is clear of the container. When no path is found, or a way point has no configuration, no trajectory is returned; samples fill the extents of the container and the start position, turned by at most the given margin.',
 ['inputs','configurations','histories'],'every container, object, motion and batch, every outcome of the roadmap and of inverse kinematics',
 'The arm domain needs a simulator and a planner that are not installed; nothing tests it.',
 [KU+'run.py',KU+'separating_axis.py'],[('sweep and samples','BagOfBoundingBoxes'),('planning and trajectory','get_insert_motion_gen')],['returned command','roadmap growth and queries'])
prop('C30','The arm world is what the motions are planned against',
 'Every hollow container (tray, bin, cubby, fence, x and y walls) consists of exactly the walls of its kind, with the requested outer size and wall thickness, and the boxes the motion planner is given for it are exactly the simulated ones at its pose. In the generated world each object has a container of its own, as wide as the widest object plus the gap, fixed bodies and objects do not overlap one another, and objects stand on the stove where their top grasp can be reached. Every initial fact is true in that world: poses are stable placements, grasps hold the object from above, holding configurations put the object at (up to 1 cm above) the pose they are listed with, the support and pre-insertion poses belong to the own container, and when some needed configuration does not exist the problem is reported as impossible instead of being handed over incompletely.',
 ['configurations','inputs','histories'],'every container kind, size, pose and gap, every history of clashing and unreachable placements',
 'The arm domain needs a simulator that is not installed; nothing tests it.',
 [KU+'run.py',KU+'kuka_primitives.py'],[('hollow bodies','create_hollow, create_hollow_shapes'),('world','load_world'),('initial facts','pddlstream_from_problem')],['simulated boxes','initial facts','obstacles of the insertion planner'])
prop('C31','Arm primitives answer exactly what the simulator admits',
 'The inverse kinematics stream returns the first attempt, within its number of attempts, whose configuration exists and is free of the fixed bodies, with the hand where the grasp puts it and an approach lifted by the approach distance, and nothing when there is none; the placement streams give exactly the stable placements free of fixed bodies and obstacles; the fixed generator gives centred placements at right angles. Free and holding motions are planned from the first to the second configuration among the fixed bodies and the objects at their given poses, carrying the held object, and nothing is returned when the planner finds none. The collision test of a command with an object is true exactly when some moving body touches the object at some step of the command.',
 ['inputs','configurations'],'every sequence of answers of the simulator and planner, every command and obstacle set',
 'The arm domain needs a simulator that is not installed; nothing tests it.',
 [KU+'kuka_primitives.py'],[('inverse kinematics','get_ik_fn'),('placements','get_stable_gen, get_fixed_gen'),('motions','get_free_motion_gen, get_holding_motion_gen'),('collision test','get_movable_collision_test')],['returned commands and poses','questions asked to the simulator'])
prop('C32','Planning front-ends plan, log and carry out what the command line asks for',
 'Running either planning domain with any admissible command line builds the world for exactly the requested gap, number and seed, plans once with motion streams that grow from the requested minimum to the requested maximum by the requested factor, and hands the requested algorithm and cost options to the planner. Every run has a results directory of its own, with one log that names the options and the outcome; earlier runs are never touched. With a display the plan found, and nothing else, is carried out, from the world as it was before planning; without a plan nothing moves; runs with the same seed have the same world and random numbers, runs with different seeds differ; an arm world that turns out to be impossible is discarded and replaced, nothing of it is left in the problem.',
 ['inputs','configurations','histories'],'every command line, random state, directory content and planner outcome',
 'The planner and the simulator are not installed; nothing tests the entry points.',
 [TB+'run.py',KU+'run.py'],[('options','main'),('log','setup_logging'),('plan translation','post_process')],['planning problem','results directory','log','commands carried out'])
prop('C33','Adaptive sampling uses exactly the certified number of samples',
 'With adaptive sampling, the motion streams of both domains build a roadmap of exactly the least number of samples for which the bound certifies a failure probability of 1% (existence of a path, volume 16 in the plane, the volume of the sampled box for the arm) at the clearance of the passage for the object at hand, whatever minimum, maximum and factor are configured, and ask it for the path once it is complete; nothing is returned when that roadmap has no path. The clearance is announced in the log and follows the gap and the width of the object that is moved (the held object, if one is held): a wider gap or a smaller object never takes more samples. The announced clearance does not exceed the free space beside the object in the passage.',
 ['inputs','configurations'],'every gap, object, configured schedule and outcome of the roadmap',
 'Counts run into the hundreds of thousands: a roadmap with one sample less than certified plans just as well in every test.',
 [TB+'streams.py',KU+'run.py'],[('adaptive count','get_anytime_motion_fn'),('adaptive count','get_insert_motion_gen')],['roadmap growth and queries','log','returned trajectory'])
DEP=['exps/tamp_environment/deploy_tamp_experiments.py','exps/tamp_environment/deploy_tamp_experiments_kuka.py','exps/tamp_environment/deploy_tamp_adaptive_kuka.py',
     'exps/tamp_environment/deploy_experiments.sh','exps/tamp_environment/deploy_experiments_kuka.sh','exps/tamp_environment/deploy_experiments_kuka_adaptive.sh']
prop('C34','Aggregation keeps every saved row exactly once',
 'Aggregating the results for a name prefix takes the most recently modified results directory whose name starts with the prefix and writes one table (<name>_agg_out.csv in that directory, the name being the requested output name or else the prefix) that has every row the tasks of that experiment have saved, exactly once and with unchanged columns and values, for every experiment type, however often, under whatever names and at whatever stage of the experiment it has been aggregated before; half-written temporary files are ignored. The announced mean and deviation of the recorded build and check times leave out the first row of each task. Nothing else is changed, and nothing is written when there are no results.',
 ['histories','inputs'],'every history of experiments, task progress, kills and earlier aggregations',
 'Nothing tests the script; a second aggregation of the same directory is not something a test does.',
 ['exps/aggregate_runtimes_for_tuning.py'],[('selection and concatenation','aggregate_runtimes_for_tuning.py')],['aggregate table','printed statistics','results directory'])
prop('C35','Deployment submits each promised run once and never overfills the queue',
 'Whatever the batch queue does (jobs finishing late or never, held jobs, a queue or cancel command that fails, a refused submission), the deployment scripts never have more than 100 jobs in the queue, cancel jobs only when all jobs listed are held, and then do cancel them, and a run of the script that ends normally has submitted exactly the promised runs: 50 of the adaptive setting and of 20 fixed sizes and of the growing roadmap to the same 20 sizes, for the arm sweep 5 of each of its 18 settings. A refused submission is not silently skipped, and after the lock file is removed no further batch is started. The job script of array index i from 1 to 200 starts exactly one run of the program of its domain, with seed i and exactly the submitted settings as the program itself reads its options, in a directory of its own; other indices start nothing.',
 ['schedules','fault_sequences','inputs'],'every behaviour of the queue, every fault and every array index and setting',
 'Nothing tests the scripts, and the cluster is not available.',
 DEP,[('queue look-up','count_lines_of_command_output'),('submission','deploy_with_args'),('job scripts','deploy_experiments*.sh')],['commands run','started programs'])
prop('C36','Closed-form sample bound, net radius and connection radius are sufficient',
 'For every net radius, dimension, failure probability and volume for which the net ball is no larger than the space, the closed-form (Blumer) sample count is the documented one, makes the exact failure bound at most the failure probability at that and every larger count, and is never below the count the numerical search finds for the same problem. Net radius, ball measure and unit-ball volume are exact; the closed-form connection radius is the greatest distance between points of neighbouring net balls along a path of that clearance and equals the radius returned with the sample bound. Arrays give the same values as single calls.',
 ['inputs'],'every radius, dimension, probability, volume, clearance and tolerance',
 'The closed forms are only used in notebooks and figures; nothing tests them.',
 ['nonasymptotic/bound.py'],[('closed forms','compute_blumer_bound, compute_connection_radius, compute_epsilon_net_radius, compute_rho, compute_vol_unit_sphere')],['returned values'])
prop('C37','State records restore exactly the state they captured',
 'A record of a configuration, pose or grasp of either planning domain (turtlebot Conf, arm BodyPose, BodyConf, BodyGrasp) holds the values it was given, or the state of the simulator at the moment it was made if none were given, and keeps them whatever happens afterwards. Assigning it puts exactly its joints or its body back to that state (a grasp: its body into the hand, wherever the hand is at that time) and changes nothing else, at any time and any number of times. Different records of the arm domain never share a name.',
 ['histories'],'every history of captures, movements and restorations',
 'The records need a simulator, nothing tests them; which state a record holds shows only after something else has moved.',
 [TB+'problems.py',KU+'kuka_primitives.py'],[('records','Conf, set_base_conf, get_base_conf'),('records','BodyPose, BodyConf, BodyGrasp')],['record values','simulator state'])
prop('C38','Result plots show exactly the logged runs',
 'time_success_plot shows, for each setting (minimum and maximum number of samples, adaptive or not) of the navigation or arm runs logged under ./runs, exactly the mean success rate and mean planning time of the finished runs with that setting, with their standard errors, and nothing for a setting without finished runs. bound_plot shows one point (delta, number of samples with which the last motion was found) for every logged run that found a motion, over the curve compute_numerical_bound(delta, 0.9, 1, 2, None) of certified sample numbers. The directory layout under ./runs does not matter; a run cut off at any line, and files that are not logs, neither show up nor stop the plots.',
 ['configurations','crash_points'],'every set of logged runs, every point at which one of them is cut off, every directory layout',
 'The figures of an experiment are read off these plots; nothing tests them, and the log format is only agreed upon by two distant files.',
 [TB+'time_success_plot.py',TB+'bound_plot.py',TB+'run.py',TB+'streams.py'],[('plots','time_success_plot.py, bound_plot.py'),('log writers','run.py main, streams.get_motion_fn/get_cspace_gen')],['bars, error bars, tick labels, points and curves of the figures'])
prop('C39','Roadmap animation shows every sample and edge once, then exactly the path',
 'animate_knn_prm(roadmap, path, node_batches, edge_batches) produces frames in which the samples of the roadmap appear in order, at most node_batches more per frame, and stay; then every edge of the roadmap, once, at most edge_batches per frame, between the places of its two samples; then, if there is a path, its legs in order, one per frame and in another colour, and nothing turns red; with an empty path everything is red at the end. The last frame shows all samples, all edges and the whole path, and no sample lies outside the axes. This holds for every batch size and for roadmaps after any growth, query or reset, and neither the roadmap nor the path is changed. With animation switched on the turtlebot planner writes exactly one GIF into the save directory per planning call that is not refused, showing the roadmap searched and the way points of the trajectory returned (or none), and returns what it returns without animation.',
 ['histories','configurations'],'every roadmap history, batch size and path',
 'The animation is the only way to look at a roadmap; which frames are missing shows only for particular numbers of samples, edges and batch sizes, and nothing tests it.',
 ['nonasymptotic/prm.py',TB+'streams.py'],[('animation','animate_knn_prm'),('planner','get_anytime_motion_fn')],['artists of every frame','files in the save directory'])
prop('C40','Scatter notebooks show exactly the deployed runs',
 'Each notebook that plots planning time against success (time_success_scatter.ipynb of both domains, time_success_scatter_adaptive.ipynb) shows, for the runs that the job scripts left under ./runs, three series named in the legend (sPRM: minimum one below maximum number of samples; iPRM: any other; aPRM: adaptive), with one point per setting (minimum, maximum, adaptive) of that series: mean planning time and success rate over exactly the finished runs of that setting, with their standard errors. Runs that were cut off at any line, directories without a log and files that are not logs neither show up nor stop the notebook. The figure is saved once, where the notebook says (the arm overview beside the notebook, the others in figures/), and nothing else is written.',
 ['configurations','crash_points'],'every set of deployed runs, every point at which one of them is cut off',
 'The published figures come from these notebooks; nothing runs them, and log format, directory names and settings are agreed upon by distant files.',
 [TB+'time_success_scatter.ipynb',KU+'time_success_scatter.ipynb',KU+'time_success_scatter_adaptive.ipynb',TB+'run.py',KU+'run.py'],[('notebooks','time_success_scatter*.ipynb'),('log writers','run.py main')],['points, error bars and legend of the figure','name of the saved figure'])
prop('C41','Corner and clutter worlds can be crossed and are known to the planner',
 'For every robot scale and gap parameter, the corner world is one closed room with a single block in the middle that leaves a corridor of the same width on all four sides; the corridor is at least as wide as the robot plus half the gap parameter and grows by exactly half of what the gap parameter grows by; the robot starts in one corner, the goal is the opposite corner, and the robot gets there both ways. For every number of obstacles and every sequence of placement answers, the clutter world (robot scales up to 2) is one closed room with exactly that many boxes, more than 1 cm apart, none of them touching the robot at its start or goal. In both worlds the robot is left standing at the start, and the obstacles handed to the planner are exactly the bodies that rise from the floor, without the robot.',
 ['configurations','inputs'],'every robot scale, gap, number of obstacles and placement sequence',
 'Generating a world needs the simulator; a leak, a box at the goal or an obstacle the planner does not know of shows only for some sizes or placements.',
 [TB+'problems.py'],[('generators','corner, random_obstacles, sample_placements')],['created bodies and their places','obstacles, start and goal of the problem'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))

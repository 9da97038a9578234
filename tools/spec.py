"""The list of properties and what the checks claim about them.

`python3 tools/spec.py` writes properties.jsonl, checks/meta.json and MANIFEST.json from it.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mechanism, rule, assumptions, technique, note,
         observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, rule=rule, assumptions=assumptions, technique=technique, note=note,
                      observe=list(observe)))


ENVS, PRM, BOUND, ANN = 'nonasymptotic/envs.py', 'nonasymptotic/prm.py', 'nonasymptotic/bound.py', 'nonasymptotic/ann.py'
SAMPLER, UTIL = 'nonasymptotic/sampler.py', 'nonasymptotic/util.py'
NARROW, KNN, LINE = ('exps/run_narrow_passage_clearance_trial.py', 'exps/run_knn_radius_trial.py',
                     'exps/run_straight_line_optimality_trial.py')
SUBMIT = 'exps/submit_and_run_experiment_job.py'
TB, KU = 'exps/tamp_environment/turtlebot_move/', 'exps/tamp_environment/kuka_carry/'
FLOAT = 'motions or points within 1e-9 of a boundary are not judged (float rounding decides them)'

prop('P01', 'Narrow passage: a straight motion is accepted iff it stays in the free space',
     'In the narrow-passage world, a straight motion between two free points is accepted exactly when no part of it '
     'leaves the free space (the two end boxes and the hallway between them). The verdict is the same for the reversed '
     'motion, and the same whether the motion is judged alone or within a batch of any size, including an empty one.',
     ['inputs', 'configurations'],
     'every dimension, every clearance in (0, 0.5), every batch of motions with both end points strictly inside the '
     'free space',
     'The tests try a handful of hand-picked planar motions; motions that are axis-parallel, have zero length, run '
     'along the hallway or only leave the free space in one of many coordinates are not sampled.',
     [ENVS, UTIL],
     [dict(name='segment against wall-segment test in each coordinate plane', where=ENVS + ': NarrowPassage.is_motion_valid'),
      dict(name='segment intersection', where=UTIL + ': detect_intersect')],
     'Batches of 0-6 motions with end points in the end boxes, the hallway, at its mouth and its walls; random, '
     'axis-parallel, zero-length, coordinate-sharing, and aimed within 1e-7..0.9 of the edges of the hallway. '
     'Non-trivial: a motion of the batch reaches |x| <= 1/2 with a decided verdict.',
     [FLOAT], 'property-based testing against an exact geometric oracle, metamorphic reversal and batching',
     'Dimensions 2-14 (large batches to 32), clearances in (0, 0.5); batches of 0-6 aimed motions and of up to 9000 random ones.')

prop('P02', 'Gray-code maze: motions use open doorways only and keep clear of walls',
     'In the Gray-code maze of unit cells, a straight motion between two points of the maze is accepted exactly when '
     'it goes from cell to cell only through the doorways between consecutive cells of the maze\'s path and, in every '
     'cell it crosses, keeps at least the wall thickness away from each of that cell\'s closed walls. The reported '
     'distance of a point to the walls is the distance to the nearest closed wall of its cell, minus the thickness.',
     ['inputs', 'configurations'],
     'every dimension >= 2, length >= 1, thickness in [0, 0.5), every pair of points in cells of the maze, in both '
     'directions of travel',
     'The tests check about ten planar motions in one 2-D maze; motions over three and more cells, with thick walls, '
     'in higher dimensions, backward, or ending inside a wall are not reached.',
     [ENVS],
     [dict(name='walk along the cell path, intersecting each shared doorway', where=ENVS + ': GrayCodeWalls.is_motion_valid'),
      dict(name='distance to the closed walls of a cell', where=ENVS + ': GrayCodeWalls.distance_to_wall')],
     'Mazes of dimension 2-5 and length 1-4; points in cell centres, doorways, walls and corners; motions within a '
     'cell, to adjacent and to further cells of the path, through or ending in doorways, and aimed at door posts. Non-trivial: the '
     'motion leaves its cell and its verdict is decided.',
     [FLOAT, 'motions through an edge shared by four cells (two coordinates turn integral together) are not judged'],
     'property-based testing against an independent segment-splitting oracle',
     'Dimensions 2-7 and lengths 1-30, a few mazes of up to 1024 cells and dimension 11, thickness in [0, 0.5); up to 60 motions judged by one maze; motions with an end exactly in a doorway.')

prop('P03', 'Gray-code maze: the solution curve is continuous, unit speed and clear of walls',
     'The maze\'s reference curve starts at the start point, ends at the end point, and moves at constant speed equal to '
     'its reported length through every cell centre of the path in order. It is never closer to a wall than half a '
     'cell minus the thickness, and parameters outside [0, 1] give the nearest end of the curve.',
     ['inputs', 'configurations'],
     'every dimension, length and thickness below one half, every pair of curve parameters',
     'The tests evaluate six parameter values in two planar mazes.',
     [ENVS],
     [dict(name='half-cell legs of the curve', where=ENVS + ': GrayCodeWalls.arclength_to_curve_point')],
     'Mazes of dimension 2-5 and length 1-5, parameters at, just before and just after every leg boundary, random '
     'ones, and ones outside [0, 1]. Non-trivial: a parameter strictly inside a leg other than the first.',
     ['positions are compared to 1e-9'],
     'property-based testing against an independently built polyline',
     'Dimensions 2-7, lengths 1-14, a few curves of up to 1024 cells, up to 40 parameters; results kept, asked again and overwritten by the caller.')

prop('P04', 'Environment samplers: inside the free space, uniform, reproducible from the seed',
     'Every state sampled from an environment lies in its free space, and states are uniformly distributed over it '
     '(for the maze: over the cell centres and the doorways). Two environments built with the same parameters and seed '
     'produce the same sequence of states, and different seeds produce different ones.',
     ['inputs', 'configurations'],
     'every environment type, dimension, clearance or thickness, and seed',
     'The tests only check that maze samples of one configuration lie between the walls; uniformity, other '
     'environments and reproducibility are not tested.',
     [ENVS],
     [dict(name='region choice by volume, then a uniform point in the region', where=ENVS + ': sample_from_env')],
     'Configurations and seeds are generated; from each environment a few thousand states are drawn and the counts per '
     'region, per half of every coordinate within a region and per quadrant are compared with the exact '
     'probabilities by an exact-tail bound. Non-trivial: at least two regions of the environment were hit.',
     ['a distribution is rejected only when its probability under the stated one is below 1e-11 per statistic'],
     'property-based testing with exact tail bounds on generated configurations',
     'Deviations of a region\'s or half-space\'s probability by more than about 7 standard deviations at 4000 samples. Mazes up to dimension 7 and length 60, hallways of a share of the volume down to 1e-4, boxes up to dimension 20; other seeds differing in any one of 64 bits.')

prop('P05', 'Reference geometry: volume, reference curve and distance to it',
     'In the straight-line and narrow-passage worlds the reported volume is the measure of the free space, the '
     'reference curve is the straight axis segment traversed at constant speed from one end to the other (clamped '
     'outside its parameter range), and the reported distance of a point to it is the Euclidean distance to that segment. '
     'In the straight-line world a motion is valid exactly when both its ends are in the box, in the single and the '
     'batched form alike.',
     ['inputs', 'configurations'],
     'every dimension, clearance, line length, parameter and batch of points',
     'No test evaluates any of these quantities.',
     [ENVS],
     [dict(name='closed forms', where=ENVS + ': StraightLine, NarrowPassage (volume, arclength_to_curve_point, distance_to_path)')],
     'Generated worlds, parameters (also outside [0,1]) and points near, on and far from the segment. Non-trivial: '
     'a point whose nearest point is an end of the segment, or lies in its interior at a positive distance.',
     ['values are compared to a relative 1e-9'],
     'property-based testing against closed forms and a sampled minimum',
     'Dimensions 2-33, batches of up to 3000 points or motions.')

prop('P06', 'Polygon sampler: uniform over the region, never in a hole',
     'A random point drawn from a polygon or multi-polygon always lies in it, never in one of its holes. Its '
     'distribution is uniform by area, also when parts lie inside the holes of other parts.',
     ['inputs'],
     'every valid polygon or multi-polygon within the coordinate range (|x|, |y| < 100), with any number of holes and '
     'nested parts, and every random state',
     'The tests draw from two fixed shapes and never check the distribution.',
     [SAMPLER],
     [dict(name='constrained triangulation and area-weighted triangle choice', where=SAMPLER + ': random_point_in_mpolygon')],
     'Grid-based and star-shaped polygons with 0-36 holes, combs and cogs of up to 240 vertices, islands in holes, up to 60 parts, rings nested to seven levels; membership of every draw '
     'and counts per part and per half-plane against exact areas. Non-trivial: a hole or more than one part.',
     ['a distribution is rejected only when its probability is below 1e-11 per statistic'],
     'property-based testing with exact areas and tail bounds',
     'About 300-2000 draws per region; two regions in turn from one process; parts down to a few thousandths of the area.')

prop('P07', 'Segment intersection agrees with exact arithmetic',
     'The planar segment intersection test reports true exactly for pairs of closed segments that share a point. That '
     'includes segments that touch at end points, are parallel or collinear, or are single points, and arguments that are '
     'broadcast from one segment to many.',
     ['inputs'],
     'every batch of pairs of planar segments, with one or both sides batched',
     'The tests use a few hand-written segments in general position.',
     [UTIL],
     [dict(name='vectorised cross-product test', where=UTIL + ': detect_intersect')],
     'Segments on small integer and dyadic lattices (where floats are exact, so touching and collinear cases are '
     'decided exactly) and general floats away from the boundary. Non-trivial: the pair touches, is parallel, '
     'collinear or degenerate.',
     ['general float pairs are judged only when the exact configuration is robust by 1e-9; lattice pairs always'],
     'property-based testing against exact rational arithmetic',
     'Lattice coordinates up to 64; batches of 1-8 pairs and, on small lattices and beside an end, of up to 9000.')

prop('P08', 'Sample-complexity bound: the smallest certified sample count',
     'The numerical bound returns the smallest sample count from which the failure probability certified by the '
     'Sauer-Shelah/epsilon-net bound stays at or below the requested one, together with the documented connection '
     'radius for the clearance and stretch. It is non-decreasing in the success probability and volume, '
     'non-increasing in clearance and tolerance, and rejects success probabilities outside (0, 1).',
     ['inputs'],
     'every clearance, success probability, volume, dimension and tolerance (or none)',
     'The tests compare a few points of the search with hand-made functions; monotonicity, minimality and the '
     'large-number regime are not covered.',
     [BOUND],
     [dict(name='exact binomial sums in log space', where=BOUND + ': compute_sauer_shelah_bound_log2'),
      dict(name='doubling and bisection', where=BOUND + ': doubling_sample_search_over_log2_prob_bound')],
     'Generated parameter tuples and metamorphic pairs; the answer n is judged at n and n-1 with an independent '
     'high-precision evaluation. Also generic unimodal sequences for the search. Non-trivial: the answer exceeds 2.',
     ['n is judged with a tolerance of 1e-6 in log2 probability'],
     'property-based testing against a high-precision reference, metamorphic monotonicity',
     'Dimensions 1-12, answers up to about 1e7.')

prop('P09', 'Closed forms of the net radius, ball measure and their inversion',
     'The ball volume, net radius, normalised ball measure, Sauer-Shelah sum, connection radius and Blumer bound equal '
     'their documented closed forms. The net radius computed from a sample count and failure probability is exactly '
     'the one at which the failure bound for that many samples equals that probability.',
     ['inputs'],
     'every dimension, clearance, stretch, volume, sample count and failure probability',
     'The tests check one inversion at a loose tolerance.',
     [BOUND],
     [dict(name='closed forms', where=BOUND)],
     'Generated parameters; each function against mpmath, and the inversion by a round trip through the forward '
     'bound. Non-trivial: dimension above 1 and volume different from 1.',
     ['values are compared to a relative 1e-9'],
     'property-based testing against high-precision references and a round trip',
     'Dimensions 1-60 (ball volume to 300), sample counts up to 1e9.')

prop('P10', 'K-nearest-neighbour tail bounds are valid upper bounds',
     'Each of the tail bounds on the probability that some sample has k or more of the others within the connection '
     'radius is at least m times the exact binomial tail, wherever the bound applies, and equals its documented '
     'closed form. Each is non-decreasing in the connection radius until it is vacuous.',
     ['inputs'],
     'every sample count, neighbour count, radius, dimension and volume (the generic form: for k above the mean)',
     'The tests do not compare any of these with the probability they bound.',
     [BOUND],
     [dict(name='Hoeffding, Chernoff and KL forms', where=BOUND + ': compute_tail_knn_radius_log_prob_*')],
     'Generated (m, k, r, d, V) with success probability p of a ball across (0, 1]; compared with an exact '
     'log-binomial tail and the closed forms. Non-trivial: the bound is below log m, i.e. says something.',
     ['compared to 1e-9 relative'],
     'property-based testing against exact binomial tails',
     'm from 2 to 3000 for exact tails, larger for the closed forms; dimensions 1-24, ball probabilities down to 1e-60.')

prop('P11', 'Effective connection radius: bisection and closed-form corollary are certified',
     'The radius search returns a radius within its tolerance of the largest radius below which the probability bound '
     'is met, never one at which the bound fails when the lower end meets it, and the lower end when nothing meets it. '
     'The closed-form effective radius equals its documented formula, and the exact failure probability at it is within the requested one.',
     ['inputs'],
     'every search interval, tolerance, unimodal bound function, and every (m, k, d, V, failure probability) for '
     'which the formula is defined',
     'The tests do not exercise the closed form and try one search.',
     [BOUND],
     [dict(name='bisection on the radius', where=BOUND + ': halving_radius_search_over_log_prob_bound'),
      dict(name='corollary', where=BOUND + ': compute_eff_conn_rad_bound')],
     'Generated monotone and humped bound functions with known threshold, the repository\'s own bounds, and generated '
     'parameters for the closed form. Non-trivial: the threshold lies strictly inside the interval.',
     ['thresholds are compared within the search tolerance'],
     'property-based testing against known thresholds and exact binomial tails',
     'Intervals up to 100 wide, tolerances 1e-9..1e-2.')

prop('P12', 'Full-connection roadmap: an edge exactly for every close, valid pair',
     'The full-connection roadmap joins two distinct samples exactly when they are within the connection radius and '
     'the motion between them is valid, with their Euclidean distance as weight. This holds after every growth and '
     'change of the radius, and the reported connection distances are those of the valid pairs.',
     ['inputs', 'histories'],
     'every sample set, radius, validity relation, and every sequence of growths and radius changes',
     'No test that can run here builds a roadmap.',
     [PRM],
     [dict(name='all-pairs enumeration', where=PRM + ': SimpleFullConnRadiusPRM.grow_to_n_samples, set_connection_radius')],
     'Worlds with generated samples (lattice points with ties and duplicates, and general ones), arbitrary symmetric '
     'validity relations and radius/growth sequences. Non-trivial: some close pair is invalid and some far pair is valid.',
     ['pairs within 1e-9 of the radius, and self loops, are unspecified'],
     'property-based testing against a brute-force reference roadmap',
     'Up to about 600 samples, dimensions 1-9, worlds scaled by 0.05-40 and shifted, 1-4 operations.')

prop('P13', 'K-nearest-neighbour roadmap: exactly the valid nearest-neighbour pairs',
     'The k-nearest-neighbour roadmap joins two distinct samples exactly when one is among the k nearest of the other '
     'and the motion between them is valid, with their distance as weight; it reports as certified radius the smallest '
     'distance of a sample to its k-th neighbour. Restricting it to fewer neighbours or a smaller radius (and '
     'relaxing again) gives exactly the roadmap of that setting.',
     ['inputs', 'histories'],
     'every sample set, k, validity relation, and every sequence of growths and of changes of k or of the radius',
     'No test that can run here builds a roadmap.',
     [PRM, ANN],
     [dict(name='roadmap from neighbour lists', where=PRM + ': SimplePRM._nn_edge_list_and_dist_list_to_nk_prm_graph'),
      dict(name='restriction', where=PRM + ': set_nearest_neighbors, set_connection_radius')],
     'Generated sample sets with distinct pairwise distances, random symmetric validity relations, k from 2 to beyond '
     'the sample count, and sequences that tighten and relax one setting. Non-trivial: a nearest-neighbour pair is '
     'invalid, and a setting was changed after growing.',
     ['the neighbour library is replaced by an exact one, in which a sample is its own first neighbour, as in '
      'pynndescent', 'edges within 1e-9 of the radius are unspecified',
      'changing k and the radius on the same roadmap is unspecified (no caller does it)'],
     'property-based testing against a brute-force reference roadmap',
     'Up to about 370 samples, k up to 128, dimensions 1-9, worlds scaled by 0.05-40 and shifted, sequences of up to 6 operations.')

prop('P14', 'Roadmap queries return a shortest valid path, or say that there is none',
     'A query returns the length and the intermediate samples of a shortest path from start to goal whose every leg '
     'is a roadmap edge or a valid connection of an end to a sample within the connection radius; it returns an infinite length and '
     'an empty path exactly when there is none. Queries leave the roadmap as it was, so repeating one gives the same answer, '
     'and the reported connections and roadmap distances between the ends\' neighbours are exact.',
     ['inputs', 'histories'],
     'every roadmap of each kind, every start and goal (as a vector or a one-row matrix), every sequence of queries',
     'No test that can run here queries a roadmap.',
     [PRM],
     [dict(name='temporary nodes and bidirectional Dijkstra', where=PRM + ': SimplePRM.query_best_solution'),
      dict(name='all-pairs connections', where=PRM + ': SimplePRM.query_all_graph_connections')],
     'Generated worlds and roadmaps of the three kinds, repeated queries that are connected, disconnected, out of '
     'range or equal to samples. Non-trivial: a finite answer through at least two samples, or a start and goal that '
     'both connect but to different components.',
     ['path lengths are compared to 1e-8 relative (1e-5 with kgraph, which works in single precision)', 'a path is any shortest one'],
     'property-based testing against a reference Dijkstra on an independently built graph',
     'Up to about 330 samples, dimensions 1-9, worlds at scales 0.05 to 3000 and shifted, radius 0, 1-5 queries per roadmap, and query histories of up to 300.')

prop('P15', 'Roadmap histories: growth, settings, queries, saving and reset stay consistent',
     'Under any sequence of growing, changing settings, querying, saving and resetting, a roadmap always equals the one of '
     'its current samples and settings, its earlier samples never change when it grows, and samples are drawn from '
     'the given sampler in order. Saving writes the current samples and roadmap, shrinking is refused, and resetting '
     'removes the roadmap\'s temporary files and allows starting over.',
     ['histories'],
     'every sequence of operations on each kind of roadmap',
     'No test that can run here runs a sequence of operations.',
     [PRM],
     [dict(name='cached full roadmap on disk and node bookkeeping', where=PRM)],
     'Generated operation sequences on the three kinds of roadmap, with the model state compared after every step. '
     'Non-trivial: a query or setting change followed by a growth.',
     ['see P12-P14 and P16 for what is unspecified'],
     'stateful model-based testing',
     'Up to 12 operations on 40 samples, and shorter histories on about 240; dimensions 1-9, scaled and shifted worlds.')

prop('P16', 'Radius roadmap by k-doubling: every close, valid pair is joined',
     'The radius roadmap built through nearest-neighbour lists joins two distinct samples exactly when they are within '
     'the connection radius and the motion between them is valid, whenever its neighbour cap does not bind. That stays '
     'true when it grows, whether or not it was queried before.',
     ['inputs', 'histories'],
     'every sample set, radius, validity relation, and every sequence of growths and queries',
     'No test that can run here builds a roadmap.',
     [PRM, ANN],
     [dict(name='doubling of k until the radius is covered', where=PRM + ': SimpleRadiusPRM.grow_to_n_samples')],
     'Generated clustered and uniform sample sets whose densest ball needs 5-60 neighbours, growth sequences and '
     'interleaved queries, pairs of samples far closer than the others, radii just above a distance. Non-trivial: more than 16 samples in some ball, or a growth.',
     ['pairs within 1e-6 of the radius are unspecified', 'exact neighbour library double'],
     'property-based testing against a brute-force reference roadmap',
     'Up to 90 samples, dimensions 1-9, scaled and shifted worlds.')

prop('P17', 'Nearest-neighbour wrappers return the nearest neighbours, in order',
     'Through either backend, the neighbour lists hold for each sample its k nearest samples (itself included with pynndescent, excluded with '
     'kgraph) in order of distance, with '
     'their Euclidean distances. Updating an index with new samples gives the lists of all samples, an update before '
     'any build is refused, and the preferred backend falls back to the other one when it is not installed.',
     ['inputs', 'configurations'],
     'every data set, dimension and k, with and without the optional backend, and every sequence of updates',
     'The one test of the wrappers needs libraries that are not installed here.',
     [ANN],
     [dict(name='padding, text parsing and distance conversion of kgraph', where=ANN + ': KGraphANN'),
      dict(name='pynndescent calls', where=ANN + ': PyNNDescentANN')],
     'Generated data of dimension 1-9 (so that padding to a multiple of four matters), k up to the data size, 0-3 '
     'updates. Non-trivial: dimension not a multiple of four, or an update.',
     ['the native libraries are replaced by exact doubles with their documented call and file formats'],
     'property-based testing against brute-force neighbours',
     'Up to 60 points, up to 400 with updates of up to 150, and some of up to 4200.')

prop('P18', 'Narrow-passage trial: the recorded thresholds bracket the true one',
     'The narrow-passage experiment writes one complete record per sample count; in it the upper connection setting '
     'yields a path of the recorded length and size (the last one standing for the maximum), the lower one yields none unless '
     'it is the smallest considered, and they are neighbouring settings. When no setting works it says so, and the temporary roadmap files are removed.',
     ['inputs', 'configurations'],
     'every clearance, dimension, seed, sample schedule, roadmap kind and maximum setting',
     'Its only test needs libraries that are not installed here and only looks at whether a solution was found.',
     [NARROW, PRM, ENVS],
     [dict(name='bisection over connection settings', where=NARROW + ': narrow_passage_clearance')],
     'Generated trials (both roadmap kinds), each record re-judged on an independently built roadmap. Non-trivial: '
     'the recorded upper setting is not the largest.',
     ['settings within 1e-9 of a pair distance are not judged', 'pandas is replaced by a small double'],
     'property-based testing against an independently recomputed roadmap',
     'Dimensions 2-6, up to 60 samples.')

prop('P19', 'Experiments: tasks are partitioned, and resuming equals not stopping',
     'The processes of an experiment together run every configured combination exactly once, whatever their number, '
     'each with its own reproducible seed. Stopping a process at any point and starting it again leaves the same '
     'records as an uninterrupted run.',
     ['configurations', 'crash_points'],
     'every configuration, number of processes, and interruption point (before, within or after a task, and while '
     'records are being written), repeated any number of times',
     'The scripts cannot be imported by tests and no test runs them.',
     [NARROW, KNN, LINE],
     [dict(name='striding over the task list', where='exps/run_*.py: main'),
      dict(name='resuming from the intermediate records', where='exps/run_*.py: main')],
     'Generated configurations, process counts and interruption points; the scripts are executed with the trial\'s '
     'expensive parts replaced and their record files compared. Non-trivial: an interruption after at least one '
     'recorded task and before the last.',
     ['pandas and the roadmap are replaced by small doubles', 'time columns are not compared'],
     'property-based testing with injected interruptions, compared with an uninterrupted run',
     'Up to 20 tasks, 15 processes and 3 interruptions; two processes at once; the seeds of up to 600 combinations; partitions of up to 120 tasks over up to 104 processes.')

prop('P20', 'K-nearest-neighbour trial: records the smallest k-th neighbour distance',
     'The neighbour-radius experiment records, for every sample count and every neighbour count below it, the smallest '
     'distance of any sample to its k-th nearest neighbour among samples drawn uniformly from the box of the requested '
     'dimension and clearance. The same seed gives the same records.',
     ['inputs', 'configurations'],
     'every clearance, dimension, ascending schedule of sample and neighbour counts, and seed',
     'The script has no test and cannot be imported by one.',
     [KNN, ENVS, ANN],
     [dict(name='minimum over the k-th column', where=KNN + ': knn_radius_trial')],
     'Generated schedules; the environment is observed while it samples and the recorded radii recomputed by brute '
     'force. Non-trivial: at least two neighbour counts and two sample counts.',
     ['neighbour libraries and pandas are replaced by doubles'],
     'property-based testing against brute force',
     'Up to about 500 samples.')

prop('P21', 'Job submission: the right script, configuration and experiment are launched',
     'Submitting creates a fresh experiment directory holding the given configuration with its name and triple, and a '
     'script that runs the experiment of the requested type on it, and launches exactly that script with that triple; a '
     'missing or malformed configuration launches nothing. Resuming launches the script of the most recent experiment of exactly '
     'that name, with its recorded triple.',
     ['inputs', 'histories'],
     'every experiment type, name (including names that are prefixes of one another), configuration, triple and '
     'history of earlier submissions',
     'No test runs the script.',
     [SUBMIT],
     [dict(name='experiment directory and generated script', where=SUBMIT)],
     'Generated histories of submissions and resumptions in a scratch directory, with the launcher replaced by one '
     'that records its arguments. Non-trivial: a resumption with at least two candidate experiments.',
     ['modification times are set explicitly, so that "latest" is unambiguous'],
     'stateful testing against a model of the experiment directory',
     'Up to 6 operations.')

prop('P22', 'Planar robot: overlap test and motion check of the turtlebot domain',
     'The planar overlap test, single and batched, says that two convex polygons overlap exactly when they do. The turtlebot\'s '
     'motion check rejects every motion whose start or goal collides with an obstacle or that overlaps one for '
     'longer than the checking resolution, and accepts every motion whose swept shape touches none; a batch gives the '
     'same verdicts as single motions up to that resolution.',
     ['inputs'],
     'every pair of convex polygons; every set of oriented box obstacles, robot extent and batch of motions, '
     'including the empty one',
     'There is no test of this code.',
     [TB + 'separating_axis.py', TB + 'streams.py'],
     [dict(name='separating axis theorem', where=TB + 'separating_axis.py'),
      dict(name='interpolated motion check', where=TB + 'streams.py: BagOfBoundingBoxes.is_motion_valid')],
     'Generated convex polygons (touching, nested, crossing like a plus, rotated) and worlds of rotated boxes with '
     'motions that pass near, through and around them. Non-trivial: axis-aligned bounding boxes overlap but the '
     'shapes are separate, or a motion collides only in its middle.',
     [FLOAT, 'pybullet and pybullet_tools are replaced by small doubles'],
     'property-based testing against exact polygon clipping',
     'Polygons of 3-13 vertices at scales 0.001 to 100 and gaps down to 1e-7, up to 30 obstacles, batches of up to 700 pairs or motions.')

prop('P23', 'Spatial boxes: overlap test and motion check of the arm domain',
     'The oriented-box overlap test says that two boxes overlap exactly when they do, for any centres, extents and '
     'rotations. The arm domain\'s motion check rejects every motion whose start or goal pose overlaps an obstacle or that '
     'overlaps one for longer than its resolution, and accepts every motion that stays clear of all of them.',
     ['inputs'],
     'every pair of oriented boxes; every set of oriented box obstacles, body extent and batch of motions, including '
     'the empty one',
     'There is no test of this code.',
     [KU + 'separating_axis.py', KU + 'run.py'],
     [dict(name='separating axis theorem on 15 axes', where=KU + 'separating_axis.py'),
      dict(name='interpolated motion check', where=KU + 'run.py: BagOfBoundingBoxes.is_motion_valid')],
     'Generated pairs of boxes with anisotropic extents, random rotations, face/edge/vertex proximity, long thin rods crossing at small angles '
     'and generated motions, of rods that swing into an obstacle with one end halfway too. Non-trivial: bounding spheres overlap and at least one box is rotated off axis.',
     ['pairs closer to touching than 1e-6 are not judged', 'pybullet_tools is replaced by a small double'],
     'property-based testing against an independent convex-distance oracle',
     'Extents 0.02-3, up to 14 obstacles, motions up to 6 long, batches of up to 900 pairs or 700 motions.')

prop('P24', 'Turtlebot motion generator: a dense, collision-free path from start to goal',
     'A path returned by the turtlebot\'s sampling-based motion generator starts at the start, ends at the goal, has no step '
     'longer than the interpolation threshold, and every leg of its roadmap path passes the motion check; it starts at the '
     'smallest sample count, gives up only once the next count would exceed the largest allowed, and never grows beyond '
     'that (with adaptive counts: beyond the certified count). Its samples are uniform over the box around the obstacles. Interpolating a list of points keeps every given point in order, adds only points on the '
     'segments between them, and leaves no step above the threshold.',
     ['inputs', 'configurations'],
     'every list of points and threshold; every set of obstacles, start, goal and sample range',
     'There is no test of this code.',
     [TB + 'streams.py'],
     [dict(name='interpolation', where=TB + 'streams.py: interpolate_vectors'),
      dict(name='anytime growth loop', where=TB + 'streams.py: get_anytime_motion_fn')],
     'Generated polylines (with repeated points and tiny steps) and small planning problems. Non-trivial: at least one '
     'leg is longer than the threshold; for the generator, a returned path with an intermediate sample.',
     ['simulator and planner libraries are replaced by small doubles'],
     'property-based testing with a validity predicate over the path',
     'Polylines of up to 8 points; worlds of 1 to 45 obstacles, ways up to about 20 long, up to 60 samples.')

prop('P25', 'Planning domains keep their world consistent',
     'From every consistent initial state, every sequence of applicable actions of the two planning domains keeps the '
     'world consistent: each robot has one configuration, each object is either at one pose or in one hand, and a hand '
     'is empty or holds one object. An action never applies without what it needs (free hand, matching configuration and pose, an existing motion), '
     'and every goal on object poses can be reached in small worlds where it is physically possible. The problems assembled for '
     'the planner start in a consistent state whose facts are so in their world (poses, supports, ways of handling objects, '
     'room to insert every object), offer exactly the streams of the stream file, planning among what stands in the world, and '
     'have a plan when every motion needed exists.',
     ['histories', 'programs'],
     'every small world and every sequence of applicable ground actions of both domains',
     'There is no test of the domains.',
     [TB + 'domain.pddl', KU + 'domain.pddl', TB + 'stream.pddl', KU + 'stream.pddl', TB + 'run.py', KU + 'run.py'],
     [dict(name='preconditions and effects', where='domain.pddl of both domains'),
      dict(name='assembled problems', where='run.py of both domains: pddlstream_from_problem')],
     'Random walks over ground actions in generated worlds, with derived predicates evaluated by a small interpreter. '
     'Non-trivial: the walk picks an object and places it again.',
     ['the subset of PDDL used by the domains is interpreted by the harness'],
     'random-walk property testing of the domain semantics against a world model',
     'Up to 3 objects, 4 poses and 40 actions; assembled problems of up to 8 objects.')

prop('P26', 'Motion commands: reversing is an involution and plans keep their order',
     'Reversing a motion command visits the same configurations in the opposite order and undoes attaching and detaching; '
     'reversing twice gives the original back, and refining refines each path in place, keeping the order of the movements, what they carry, and the waypoints passed. Turning a plan into a '
     'command sequence keeps the order of its actions, each turned into its own movements.',
     ['inputs'],
     'every command made of body paths, attachments and detachments, every plan over the domains\' actions',
     'There is no test of this code.',
     [KU + 'kuka_primitives.py', KU + 'run.py', TB + 'run.py'],
     [dict(name='command classes', where=KU + 'kuka_primitives.py: Command, BodyPath, Attach, Detach'),
      dict(name='plan post-processing', where='post_process / postprocess_plan')],
     'Generated commands and plans. Non-trivial: at least two different kinds of movement.',
     ['simulator libraries are replaced by small doubles'],
     'property-based testing of algebraic laws',
     'Up to 8 movements and 8 actions, and some of up to 70 movements, 300 configurations or 50 actions.')

prop('P27', 'Problem worlds: the hallways and hollow boxes have the advertised geometry',
     'The constructed obstacle worlds enclose the region they advertise: the hollow shelf\'s walls lie on the requested sides with the '
     'requested thickness and outer size, each obstacle box coincides with the piece of geometry it stands for, and the '
     'turtlebot\'s hallway is as wide as its stated gap and is the only way between the two rooms; every wall is listed as an '
     'obstacle, and objects and robots start where they fit.',
     ['configurations'],
     'every admissible size, thickness, gap and choice of sides',
     'There is no test of this code.',
     [KU + 'run.py', TB + 'problems.py'],
     [dict(name='world construction', where=KU + 'run.py: create_hollow_shapes; ' + TB + 'problems.py: hallway')],
     'Generated parameters; the boxes created through a recording simulator double are compared with the specified '
     'region. Non-trivial: parameters different from the defaults.',
     ['simulator libraries are replaced by recording doubles'],
     'property-based testing of constructed geometry',
     'All side choices; sizes 0.1-2; up to 9 targets.')

prop('P28', 'Arm streams: motions, insertions, placements and grasps are what they certify',
     'A motion of the arm goes from the first to the second configuration, is planned around every fixed body and every '
     'placed object at its pose, and carries exactly the grasped object. An insertion carries the object from its pose at the '
     'first configuration to its pose at the second, and no leg of it fails the motion check; it is given up only as the '
     'sample range demands. Placements lie on the surface and meet nothing, grasps from above hold the object from above, '
     'inverse kinematics yields configurations that put the object where it was asked, and the collision test of a '
     'command tells whether something carried along meets an object. Insertions draw their samples uniformly from the box around '
     'the obstacles and the start, turned by at most the margin.',
     ['inputs', 'configurations'],
     'every set of fixed bodies, placed objects, configurations, obstacles and sample ranges',
     'There is no test of this code.',
     [KU + 'kuka_primitives.py', KU + 'run.py'],
     [dict(name='motion streams', where=KU + 'kuka_primitives.py: get_free_motion_gen, get_holding_motion_gen'),
      dict(name='insertion generator', where=KU + 'run.py: get_insert_motion_gen'),
      dict(name='placements, grasps, inverse kinematics', where=KU + 'kuka_primitives.py: get_stable_gen, get_top_grasps, get_ik_fn')],
     'Generated worlds for a kinematic double of the simulator in which inverse kinematics is exact; what the planner is '
     'asked is recorded, and paths are judged by independent geometry. Non-trivial: objects to avoid, more than one sample '
     'count or a found path, a placement among other objects.',
     ['simulator and planner libraries are replaced by a kinematic double', 'configurations may carry the approach offset of 1 cm'],
     'property-based testing with a recording world model and validity predicates over paths',
     'Up to 4 objects (motions: up to 26), up to 45 samples, up to 5 obstacles, commands of up to 400 configurations; one insertion generator asked for several objects in turn.')


prop('P29', 'Planning runs use the world and options of their command line, and log',
     'A planning run of either robot builds the world its command line describes (gap, number of targets), hands the planner '
     'exactly what stands in that world even after worlds without a start were thrown away, and plans motions with the stated '
     'sample range, growth factor, margins and adaptive bound, ignoring obstacles only when collisions are disabled. Two runs '
     'with the same seed meet the same world and draw the same samples. The run directory holds one log with the '
     'arguments, every line printed, and the time; a run whose insertion cannot be planned says so; with a display a plan found '
     'is carried out from the state it was planned for.',
     ['inputs', 'configurations'],
     'every combination of the options, in any order and form, and every sequence of printed lines',
     'There is no test of the two programs.',
     [TB + 'run.py', KU + 'run.py'],
     [dict(name='turtlebot run', where=TB + 'run.py: main, setup_logging, pddlstream_from_problem'),
      dict(name='arm run', where=KU + 'run.py: main, load_world, pddlstream_from_problem')],
     'Generated command lines for main() run in-process against a kinematic double; the planner is replaced by an observer that '
     'inspects the problem, calls its streams with recorded roadmap growth, prints lines and returns a plan. The log is read '
     'back. Non-trivial: more than two options given.',
     ['simulator and planner libraries are replaced by doubles', 'the animation option is not used',
      'the arm program ignores its seed and its number of targets (known findings)'],
     'property-based testing of whole programs with generated command lines and an observing planner',
     'Sample counts up to about 60000 (growth recorded, not performed, above 40).')


prop('P30', 'Tuning, deployment and aggregation handle every experiment exactly once',
     'Tuning launches the experiment once for every sweep value that fits 48 processors beside the given one, with that triple, '
     'type and configuration. Task i of a deployment job starts one run, with seed i, a directory of its own and settings that '
     'the program accepts and that are those given. The feeding programs submit each of their settings the stated number of '
     'times, never into a queue that is full, cancel when all that is queued is held, and stop once the lock file is gone. '
     'Aggregation takes the newest experiment of a prefix, writes every row of every task once however often it is run, and '
     'states mean and deviation without the first row of each task.',
     ['inputs', 'histories'],
     'every sweep setting, set of result files, array index and sequence of queue states',
     'There is no test of these scripts, which need a cluster.',
     ['exps/tune_experiment_triples.py', 'exps/aggregate_runtimes_for_tuning.py', 'exps/tamp_environment/deploy_experiments.sh',
      'exps/tamp_environment/deploy_tamp_experiments.py'],
     [dict(name='sweep of triples', where='exps/tune_experiment_triples.py'),
      dict(name='aggregation', where='exps/aggregate_runtimes_for_tuning.py'),
      dict(name='job scripts', where='exps/tamp_environment/deploy_*.sh'),
      dict(name='queue feeders', where='exps/tamp_environment/deploy_tamp_*.py: count_lines_of_command_output, deploy_with_args')],
     'Scripts run as programs in scratch directories with stand-ins for the cluster commands that write down their calls; tuning '
     'goes through the real submission script, job command lines through the real run programs. Non-trivial: some but not all '
     'sweep values fit; several tasks with several rows; two array tasks; a queue that is full at some point.',
     ['cluster commands are stand-ins; waiting is skipped', 'experiments whose directories are equally old are not judged'],
     'property-based testing of scripts against reference models, with scripted cluster commands',
     'Up to 4 experiments of up to 4 tasks with up to 5 rows, and some of up to 120 tasks or 300 rows; up to 8 scripted queue states.')

prop('P31', 'Animations and plots show the roadmap and the runs they are given',
     'The animation of a roadmap adds all its samples, then all its edges, each between its two samples, at most the stated '
     'number at a time, then the path leg by leg; without a path everything turns red, and only then. The plots of logged '
     'planning runs show for every setting in the logs the mean and standard error of success and time of exactly its runs, '
     'and for every run that found a path its gap and last sample count beside the sample bound certified with probability 0.9 for unit volume.',
     ['inputs', 'histories'],
     'every planar roadmap and path with every batch size, every set of logged runs',
     'There is no test of the pictures.',
     [PRM, TB + 'time_success_plot.py', TB + 'bound_plot.py'],
     [dict(name='frames of the animation', where='nonasymptotic/prm.py: animate_knn_prm'),
      dict(name='reading of logs', where='exps/tamp_environment/turtlebot_move/time_success_plot.py, bound_plot.py')],
     'The animation is played through a writer that notes the points, segments and colours on the axes at every frame; the '
     'plotting programs run in a scratch directory with generated logs in the format of the run program, and the figure they '
     'show is read back. Non-trivial: more than one edge and a path or none; several settings with several runs; several solved runs.',
     ['pictures are read as matplotlib artists, not as pixels'],
     'property-based testing of figures against what they depict',
     'Roadmaps of up to 54 samples, up to 14 logged runs of up to 4 settings.')


prop('P32', 'Straight-line trial: the recorded radii bracket the completeness threshold',
     'For every sample count of its schedule the straight-line experiment records two successive neighbour distances, at most '
     'the certified radius, of which the completeness check rejected the lower (unless it is the least considered) and accepted '
     'the upper (unless it is the greatest). It asks about the roadmap of that count, with the configured limits and the '
     'tolerance that belongs to the radius, notes every check that timed out or a range with nothing to search, and removes the '
     "roadmap's temporary files.",
     ['inputs'],
     'every dimension, clearance, schedule, neighbour count, seed and verdict of the completeness check',
     'No test runs the experiment, and the check it relies on is disabled in the repository.',
     [LINE, PRM],
     [dict(name='search over radii', where='exps/run_straight_line_optimality_trial.py: straight_line_trial'),
      dict(name='sorted neighbour distances', where='nonasymptotic/prm.py: SimpleNearestNeighborRadiusPRM.grow_to_n_samples')],
     'The experiment runs as a program on generated configurations; the completeness check, which the repository disables on '
     'purpose, is replaced by a stand-in with generated verdicts (thresholds, arbitrary verdicts, timeouts) that notes what it is '
     'asked; records are compared with brute-force neighbour distances and the verdicts given. Non-trivial: both recorded radii '
     'are inside the range.',
     ['the completeness check itself is a stand-in', 'radii above 2.8 clearances have no tolerance and are not judged',
      'nearest neighbours through the pynndescent interface'],
     'property-based testing against brute-force distances and the verdicts given',
     'Up to 210 samples, dimensions 2-7, up to 40 neighbours.')



def main():
    done = {f.split('_')[0].upper() for f in os.listdir(os.path.join(HERE, 'checks')) if f.endswith('.py')}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            anchors = {'files': p['files'], 'mechanism': p['mechanism']}
            if p['observe']:
                anchors['observe_at'] = p['observe']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': anchors}) + '\n')
    with open(os.path.join(HERE, 'checks', 'meta.json'), 'w') as f:
        json.dump({p['id']: {'rule': p['rule'], 'assumptions': p['assumptions']} for p in PROPS}, f, indent=1)
        f.write('\n')
    checks = [{'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'],
               'thorough_cmd': './check %s --tier thorough' % p['id'],
               'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'],
               'level': 'exploration', 'level_note': p['note']} for p in PROPS if p['id'] in done]
    na = [{'property': p['id'], 'reason': 'no check yet'} for p in PROPS if p['id'] not in done] + NOT_APPLICABLE
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')
    design = os.path.join(HERE, 'DESIGN.md')
    with open(design) as f:
        text = f.read()
    a, b = '<!-- generated by tools/spec.py: begin -->', '<!-- end -->'
    head, tail = text.split(a)[0], text.split(b)[1]
    body = ''
    for p in PROPS:
        body += '\n### %s %s\n\n' % (p['id'], p['title'])
        body += '* Over: %s.\n* Method and oracle: %s.\n* Generated: %s\n* Bounds: %s\n' % (
            p['text'], p['technique'], p['rule'], p['note'])
        if p['assumptions']:
            body += '* Assumes: %s.\n' % '; '.join(p['assumptions'])
        body += '* Beyond the tests: %s\n' % p['why']
    with open(design, 'w') as f:
        f.write(head + a + '\n' + body + '\n' + b + tail)


if __name__ == '__main__':
    main()

"""The properties: statement, anchors, and the part of the surface each covers.

py: modules whose public functions, classes and declarations are entries.
cxx: files whose functions with external linkage are entries.
cxx_extra: (file, name pattern) of further entries (kernels, generators, main).
uses: other properties whose entries this one relies on; those reached by a
      call from this property's entries are verified by this check too.
special: module in wodlint.rules with additional rules.
"""

PROPS = []


def P(id, title, statement, over, text, why, mech, **kw):
  d = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, mech=mech)
  d.update(kw)
  assert len(title) <= 80, title
  PROPS.append(d)


M = 'metrics/'
MP = 'metrics.python.'

P('P01', 'The published record formats stay readable by every old reader and writer',
  'Every message, field and enumerator that the public protocol formats (frames, labels, scenarios, maps, metrics '
  'configurations, submissions) define keeps its number, name, wire type, label, default, packing and oneof, so a '
  'file written by any released version decodes to the same values. No new field is required and no number that '
  'already has a meaning is given a second one.',
  ['inputs', 'programs'], 'every published file and every program that reads or writes one',
  'Tests build and read messages with one and the same generated code, so a renumbered or retyped field round-trips '
  'and no test notices; only a comparison with the published schema does.',
  [('proto schemas', 'src/waymo_open_dataset/*.proto, protos/*.proto, label.proto, dataset.proto')],
  special='p01', files=['src/waymo_open_dataset/dataset.proto', 'src/waymo_open_dataset/label.proto',
                        'src/waymo_open_dataset/protos'])

P('P02', 'Native operators, their kernels and the Python wrappers agree',
  'Every registered native operator has a kernel; the kernel reads exactly the declared inputs and attributes and '
  'sets exactly the declared outputs. The Python wrapper of an operator exposes the same parameters in the same '
  'meaning, forwards each one to the operator parameter of that name, and returns the outputs in the declared order.',
  ['inputs', 'programs'], 'every operator, attribute, input and output, for every caller',
  'The operator tests need TensorFlow and exercise one call shape each; a parameter that is dropped, swapped or '
  'renamed on one side is only seen when some caller passes it.',
  [('operator registrations', 'metrics/ops/metrics_ops.cc, wdl_limited/camera/ops/camera_model_ops.cc'),
   ('wrappers', 'metrics/ops/py_metrics_ops.py, wdl_limited/camera/ops/py_camera_model_ops.py')],
  py=['metrics.ops.py_metrics_ops', 'wdl_limited.camera.ops.py_camera_model_ops'],
  cxx=['metrics/ops/metrics_ops.cc'], special='p02')

P('P03', 'Metric operators turn tensors into the matching measurement objects',
  'For every batch of tensors the metric operators accept, each element of each input reaches exactly the field of '
  'the prediction, ground truth or scenario object it stands for (box, score, type, frame, sequence, difficulty, speed, '
  'overlap, validity), grouped by the given frame, sequence or scenario identifier. Inputs whose shapes or values '
  'disagree are refused with an error, and each output element is the metric value it is documented to be.',
  ['inputs', 'configurations'], 'every input tensor of every metric operator, every batch size and configuration',
  'The operator tests need TensorFlow, which this tree is built without, and each covers a few hand-made boxes; the '
  'statement quantifies over every column, type and grouping.',
  [('tensor parsing and output', 'metrics/ops/detection_metrics_ops.cc, tracking_metrics_ops.cc, motion_metrics_ops.cc, matcher_ops.cc'),
   ('shared parsing', 'metrics/ops/utils.cc')],
  cxx=['metrics/ops/utils.cc'],
  cxx_extra=[(M + 'ops/detection_metrics_ops.cc', r'Op::(Compute|\w+Op)$'), (M + 'ops/tracking_metrics_ops.cc', r'Op::(Compute|\w+Op)$'),
             (M + 'ops/motion_metrics_ops.cc', r'Op::(Compute|\w+Op)$'), (M + 'ops/matcher_ops.cc', r'Op::(Compute|\w+Op)$')],
  uses=['P08'])

P('P04', 'Scenario-to-example conversion writes each value at its documented place',
  'Converting a motion scenario to training features places the state of the k-th agent at the t-th step in element '
  '(k, t) of the past, current or future feature of that name, marks it valid exactly when the step exists and is valid, '
  'and fills every other element with the documented padding. Agents to predict come first, the map is sampled and '
  'truncated to the configured sizes with the type and identifier of its source feature, and inputs that cannot be '
  'represented are refused with an error.',
  ['inputs', 'configurations'], 'every scenario and conversion configuration',
  'The C++ tests convert a handful of small scenarios and do not run in the Python suite; index arithmetic, padding '
  'and type codes have to hold for every agent count, map and step count.',
  [('conversion', 'data_conversion/scenario_conversion.cc')],
  cxx=['data_conversion/scenario_conversion.cc'],
  cxx_extra=[])

P('P05', 'Conversion of frames to the modular format keeps every value and key',
  'Every component extracted from a version-1 frame carries the identifying key of its frame, sensor and object, and '
  'each of its columns holds the value of the corresponding field of the frame, with the same units, order and missing '
  'values. Optional parts that are absent in the frame produce no component or the documented default, and every '
  'object, sensor and return of the frame is visited exactly once.',
  ['inputs'], 'every frame and every registered component type',
  'The extractor tests need TensorFlow and check single fields of one frame; a swapped axis, a missed return or a '
  'wrong key is a fact about each assignment, not about a sampled frame.',
  [('extractors', 'v2/perception/compat_v1/*.py')],
  py=['v2.perception.compat_v1.' + x for x in ('box', 'camera_image', 'context', 'interfaces', 'keypoints', 'lidar', 'pose', 'segmentation')],
  uses=['P06'])

P('P06', 'The modular-format tables keep their names, columns, keys and join rules',
  'Each component table has the published tag, the published column names with the published storage types, and the '
  'key columns that identify its rows. Flattening a component to columns and rebuilding it from columns use the same '
  'names for the same values, and joining two tables matches rows on exactly the key columns they share.',
  ['inputs', 'programs'], 'every component class, column and pair of tables',
  'Existing tests cover a toy component; the schema of each published table and the join keys for each pair are '
  'declared in code that only released files exercise.',
  [('column machinery', 'v2/component.py, v2/column_types.py, v2/typing_utils.py'),
   ('joins', 'v2/dataframe_utils.py'), ('tables', 'v2/perception/*.py'), ('registry', 'v2/__init__.py')],
  py=['v2', 'v2.component', 'v2.column_types', 'v2.dataframe_utils', 'v2.typing_utils'] +
  ['v2.perception.' + x for x in ('base', 'box', 'camera_image', 'context', 'keypoints', 'lidar', 'object_asset', 'pose', 'segmentation')])

P('P08', 'Each object falls in exactly the breakdown shard its attributes select',
  'For every breakdown the metrics configuration can name, an object is assigned to the shard its type, range, size, '
  'speed or camera selects, or to none when the breakdown does not apply to it; shard identifiers, counts and names are '
  'consistent, so the k-th metric carries the k-th name. Which shards a ground truth may be matched from, and '
  'the difficulty levels and breakdowns an object takes part in, follow the configuration only.',
  ['inputs', 'configurations'], 'every object, breakdown kind, shard and configuration',
  'The tests check sample objects well inside a shard; thresholds, boundaries and the numbering shared by three '
  'sibling listings have to agree for every value.',
  [('generators', 'metrics/breakdown_generator.cc'), ('names', 'metrics/config_util.cc, metrics/python/config_util_py.py'),
   ('subsets', 'metrics/metrics_utils.cc')],
  cxx=['metrics/config_util.cc'],
  cxx_extra=[(M + 'breakdown_generator.cc', r'::(Shard|Id|NumShards|ShardName|ShardsForMatching|IsGroundTruthOnlyBreakdown|Create)$'),
             (M + 'metrics_utils.cc', r'::(IsInBreakdown|IsGroundTruthOnlyBreakdown|BuildSubsets|GetDifficultyLevels|HasVelocityBreakdown)$')],
  py=[])

P('P09', 'Merging measurements loses and invents nothing',
  'Accumulating measurements over frames, scenes or scenarios adds every count, weight and sample of every part to '
  'the matching field of the total, for the same breakdown, cutoff and difficulty, whatever the number and order of '
  'the parts. Parts that describe different breakdowns or cutoffs are refused.',
  ['inputs', 'histories'], 'every sequence of partial measurements',
  'Tests merge two or three small parts with most fields at zero; a field that is not carried, or is carried to the '
  'wrong sibling, leaves them unchanged.',
  [('merge', 'metrics/detection_metrics.cc, metrics/tracking_metrics.cc'),
   ('accumulators', 'metrics/motion_metrics.h, metrics/motion_metrics.cc')],
  cxx=[], cxx_extra=[(M + 'detection_metrics.cc', r'open_dataset::MergeDetectionMeasurements$'),
                     (M + 'tracking_metrics.cc', r'::MergeTrackingMeasurementsVector$'),
                     (M + 'motion_metrics.cc', r'Stats::Accumulate\w*$'), (M + 'motion_metrics.h', r'Accumulator::\w+$')],
  cxx_inline=[(M + 'motion_metrics.h', r'.'), (M + 'tracking_metrics.cc', r'.')])

P('P10', 'Matching respects eligibility, thresholds and the chosen policy',
  'A prediction and a ground truth are matched only when they may be matched and their overlap reaches the threshold '
  'configured for their type; each takes part in at most one match, over exactly the subsets that were set, '
  'and results are reported by object index with the documented value for unmatched objects. Score-first matching takes predictions from '
  'the highest score down and gives each the best remaining eligible ground truth.',
  ['inputs', 'configurations'], 'every set of boxes, subset, threshold table and custom weight',
  'Matcher tests use up to four boxes; the pairing of indices, subsets and type thresholds has to be right for every '
  'combination of subset and type.',
  [('matchers', 'metrics/matcher.cc, metrics/matcher.h'), ('assignment', 'metrics/hungarian.cc')],
  cxx=['metrics/matcher.cc', 'metrics/hungarian.cc'],
  cxx_extra=[(M + 'matcher.h', r'Matcher::\w+$'), (M + 'hungarian.cc', r'Hungarian')], cxx_skip=[(M + 'matcher.h', r'TEST_')], cxx_inline=[(M + 'matcher.h', r'.')],
  uses=['P16'])

P('P11', 'Detection metrics count, score and average exactly what they define',
  'For every set of frames, each score cutoff, difficulty level and breakdown counts as true positive, false positive '
  'or false negative exactly the matched and unmatched objects that take part in it, with the heading and '
  'longitudinal affinity weights of each true positive. Precision, recall and average precision are computed from '
  'those counts by the published definition, and one metric is returned per breakdown and difficulty, in order.',
  ['inputs', 'configurations'], 'every sequence of frames, configuration and score distribution',
  'The C++ tests compute a few small scenes and are not part of the Python suite; the counts and curves have to be '
  'right for every matching outcome and every breakdown.',
  [('measurement', 'metrics/detection_metrics.cc'), ('counting rules', 'metrics/metrics_utils.cc')],
  cxx=['metrics/detection_metrics.cc'],
  cxx_extra=[(M + 'metrics_utils.cc', r'::(IsTP|IsFP|IsDetectionFN|ComputeHeadingAccuracy|ComputeMeanAveragePrecision|'
              r'DecideScoreCutoffs|EstimateObjectSpeed|FindGTWithLargestIoU)$')],
  cxx_skip=[(M + 'detection_metrics.cc', r'::Merge\w*$')],
  uses=['P08', 'P09', 'P10', 'P16'])

P('P12', 'Tracking metrics count misses, switches and false tracks as defined',
  'Frame by frame, every ground truth keeps the prediction it was matched to while that match stays eligible, and each '
  'frame adds exactly its matches, misses, false positives and identity mismatches to the totals of its breakdown, '
  'difficulty and cutoff. The accuracy and precision reported are the published functions of those totals at the '
  'selected cutoff.',
  ['inputs', 'histories', 'configurations'], 'every sequence of frames and every identity history',
  'The tests follow one or two objects over a few frames; identity bookkeeping depends on the whole history of '
  'matches and disappearances.',
  [('tracking', 'metrics/mot.cc, metrics/mot.h'), ('measurement', 'metrics/tracking_metrics.cc')],
  cxx=['metrics/tracking_metrics.cc', 'metrics/mot.cc'],
  cxx_extra=[(M + 'mot.cc', r'MOT::\w+$'), (M + 'metrics_utils.cc', r'::IsTrackingFN$')],
  cxx_skip=[(M + 'tracking_metrics.cc', r'::Merge\w*$')],
  uses=['P08', 'P09', 'P10', 'P11'])

P('P13', 'Motion metrics measure displacement, misses, overlap and mAP as defined',
  'For every scenario, prediction set and configured step, displacement error, miss, overlap and average precision are '
  'computed against the ground-truth step of the same time and agent, only over valid steps, with the thresholds of '
  'the configuration scaled by speed and the trajectory bucket of the agent. Values are aggregated per object type and step into the metric of that '
  'name.',
  ['inputs', 'configurations'], 'every scenario, joint or single prediction set, and configuration',
  'The C++ tests have a dozen straight trajectories and are not part of the Python suite; step offsets, buckets and '
  'thresholds must agree for every sampling rate and trajectory.',
  [('metrics', 'metrics/motion_metrics.cc, metrics/motion_metrics.h'), ('trajectory helpers', 'metrics/motion_metrics_utils.cc')],
  cxx=['metrics/motion_metrics.cc', 'metrics/motion_metrics_utils.cc'],
  cxx_extra=[(M + 'motion_metrics.cc', r'\(anonymous namespace\)::Compute(AllMetrics|MinAverageDisplacement|MissRate|OverlapRate|MeanAveragePrecision)$')],
  cxx_skip=[(M + 'motion_metrics.cc', r'Stats::Accumulate\w*$|::ComputeMetricsStats$'), (M + 'motion_metrics_utils.cc', r'Challenge')],
  uses=['P09', 'P14'])

P('P14', 'Motion and sim-agent submissions that break a rule are refused',
  'A motion prediction set is evaluated only if its configuration is consistent, it covers exactly the required agents and '
  'every trajectory has the required number of steps (predictions beyond the allowed number are ignored); a simulation '
  'submission only if every joint scene simulates exactly the required agents for the required number of steps and the '
  'number of rollouts is the required one. Anything else produces an error, never a metric.',
  ['inputs'], 'every submission and configuration',
  'Tests try a few malformed submissions; the rules have to reject every other malformed one as well and accept every '
  'well-formed one.',
  [('motion validation', 'metrics/motion_metrics.cc, metrics/motion_metrics_utils.cc'),
   ('simulation validation', 'utils/sim_agents/submission_specs.py')],
  cxx_extra=[(M + 'motion_metrics.cc', r'::ComputeMetricsStats$'), (M + 'motion_metrics_utils.cc', r'Challenge')],
  py_extra=['utils.sim_agents.submission_specs.validate_joint_scene', 'utils.sim_agents.submission_specs.validate_scenario_rollouts'],
  uses=['P19'])

P('P15', 'Segmentation IOU counts every labelled point of the configured classes',
  'For every pair of predicted and true label images the per-class intersection and union counts grow by exactly the '
  'points of that class, ignoring points whose true class is not evaluated; merging adds the counts of the parts and the '
  'reported IOU of a class is intersection over union, averaged over the configured classes.',
  ['inputs', 'histories'], 'every sequence of updates, label values and class lists',
  'The test updates once or twice with a 2x3 image; label values outside the class list and merged histories are not '
  'reached.',
  [('accumulator', 'metrics/segmentation_metrics.cc')],
  cxx=['metrics/segmentation_metrics.cc'])

P('P16', 'Box overlap and its localization-error-tolerant variant are as defined',
  'The overlap of two boxes is the intersection over the union of their areas or volumes in the chosen box mode, zero '
  'for boxes that are disjoint in height or plan; every box field is used in its own role (length, width, height, '
  'centre, heading). The tolerant variant first moves the prediction along the line of sight within the documented '
  'limit and scales by the configured longitudinal affinity.',
  ['inputs', 'configurations'], 'every pair of boxes, box mode and tolerance configuration',
  'Tests compare a handful of box pairs; a swapped side or a missing branch for one box mode needs inputs they do not '
  'have.',
  [('overlap', 'metrics/iou.cc')], cxx=['metrics/iou.cc'])

P('P17', 'Range images and point clouds correspond cell by cell',
  'Every pixel of a range image with a positive range gives exactly one point, at the position its row inclination, '
  'column azimuth, range, and the sensor and vehicle pose at that pixel determine; projecting points back '
  'fills exactly the cell whose angles they have. Rows, columns, returns and sensors keep their order between '
  'range image, pose image, camera projection and point list.',
  ['inputs'], 'every range image, calibration and pose',
  'The tests need TensorFlow and use synthetic images; axis order, masks and pose composition have to be right for every '
  'pixel.',
  [('range images', 'utils/range_image_utils.py'), ('modular format', 'v2/perception/utils/lidar_utils.py'), ('transforms', 'utils/transform_utils.py')],
  py=['utils.range_image_utils', 'v2.perception.utils.lidar_utils'], uses=['P32'])

P('P18', 'Range-image compression keeps layout, precision and masks',
  'For every range image and list of precisions, the compressed form stores for each channel the mask, residuals, '
  'quantisation and shape that the decoder reads back in the same order and scale; decoding returns an '
  'array of the original shape whose values are the quantised originals. Neither direction changes the caller\'s arrays, '
  'and tiling and low-rank coding cut and rejoin tiles at the same positions.',
  ['inputs'], 'every array shape, value and precision list',
  'Round-trip tests use small random arrays of one or two shapes; encoder and decoder must agree on every field for '
  'every shape.',
  [('delta coding', 'utils/compression/delta_encoder.py'), ('low-rank coding', 'utils/compression/pca_codec.py'), ('tiles', 'utils/compression/tiling.py')],
  py=['utils.compression.delta_encoder', 'utils.compression.pca_codec', 'utils.compression.tiling'])

P('P19', 'Simulation submission rules and conversions follow the challenge definition',
  'For each challenge the number of rollouts, history and future steps and step length are the published ones; the agents '
  'that must be simulated or evaluated are exactly those valid at the current step, or required by the challenge. '
  'Converting between scenarios, joint scenes and trajectories keeps each agent\'s identifier, type, size and every '
  'step at its time.',
  ['inputs'], 'every scenario, joint scene and challenge type',
  'The tests need TensorFlow and one test scenario; step offsets and agent filters have to be right for every '
  'scenario.',
  [('rules', 'utils/sim_agents/submission_specs.py'), ('conversions', 'utils/sim_agents/converters.py'),
   ('drawing', 'utils/sim_agents/visualizations.py')],
  py=['utils.sim_agents.submission_specs', 'utils.sim_agents.converters', 'utils.sim_agents.visualizations'],
  py_skip=[r'\.validate_'], uses=['P32'])

P('P20', 'Simulation realism metrics score each feature over its own valid steps',
  'Each realism feature (kinematics, distance to objects, collisions, time to collision, road departure, traffic-light violation) is computed '
  'from the simulated and logged states of the evaluated agents at the same steps; its likelihood uses the estimator '
  'configured for that feature and only the steps where the log is valid. The meta-metric is the configured weighted sum of '
  'the feature likelihoods, and bucketed metrics combine exactly their own features.',
  ['inputs', 'configurations'], 'every scenario, set of rollouts and metrics configuration',
  'The tests need TensorFlow and run one scenario; which mask, feature and estimator meet is a fact about the '
  'code for every field.',
  [('metrics', 'wdl_limited/sim_agents_metrics/*.py')],
  py=['wdl_limited.sim_agents_metrics.' + x for x in ('estimators', 'interaction_features', 'map_metric_features',
      'metric_features', 'metrics', 'traffic_light_features', 'trajectory_features')], uses=['P32', 'P19'])

P('P21', 'Occupancy-flow grids and metrics use each agent at its own time and cell',
  'Rendered occupancy and flow cover exactly the cells of the agents of the requested type and visibility at the '
  'requested step, transformed around the autonomous vehicle; the waypoint grids aggregate the steps that belong '
  'to each waypoint, separately for observed and occluded agents. The metrics compare prediction and truth of the same '
  'waypoint and channel and average each over its own waypoints.',
  ['inputs', 'configurations'], 'every scenario, agent type, time step and configuration',
  'The tests need TensorFlow and check shapes and means; step windows, masks and cell order must hold for '
  'every configuration.',
  [('rendering', 'utils/occupancy_flow_renderer.py, occupancy_flow_grids.py, occupancy_flow_data.py, occupancy_flow_vis.py'),
   ('metrics', 'utils/occupancy_flow_metrics.py')],
  py=['utils.occupancy_flow_data', 'utils.occupancy_flow_grids', 'utils.occupancy_flow_metrics', 'utils.occupancy_flow_renderer', 'utils.occupancy_flow_vis'])

P('P22', 'Keypoint data and pose metrics pair each joint with itself',
  'Converted keypoints keep the joint, location and occlusion state of the label they come from, and tensors keep the '
  'order of joints and objects. Each pose metric compares predicted and true keypoints of the same joint and matched object, over the visible '
  'joints and with the scales and thresholds documented for that joint, in every update and subset; drawings connect the joints of the '
  'configured skeleton.',
  ['inputs', 'histories', 'configurations'], 'every set of keypoints, sequence of updates and subset',
  'The tests need TensorFlow; per-joint tables and masks are exercised for a few joints only.',
  [('data', 'utils/keypoint_data.py'), ('metrics', 'metrics/python/keypoint_metrics.py'), ('drawing', 'utils/keypoint_draw.py')],
  py=['utils.keypoint_data', 'metrics.python.keypoint_metrics', 'utils.keypoint_draw'], uses=['P32'])

P('P23', 'Camera projection applies calibration, distortion and shutter as specified',
  'A world point projects to the pixel given by the camera extrinsics, the pose at the time its row or column was '
  'exposed, the lens distortion and the intrinsics, for each rolling-shutter direction; points behind the camera or outside '
  'the valid distortion range are reported as invalid. The inverse uses the same parameters in the opposite order.',
  ['inputs', 'configurations'], 'every calibration, shutter direction, pose and point',
  'The C++ test uses one calibration; each parameter index, sign and shutter case needs its own input to be seen.',
  [('camera model', 'wdl_limited/camera/camera_model.cc'), ('operators', 'wdl_limited/camera/ops/camera_model_ops.cc')],
  cxx=['wdl_limited/camera/camera_model.cc'],
  cxx_extra=[('wdl_limited/camera/ops/camera_model_ops.cc', r'Op::(Compute|\w+Op)$|Op<\w+>::(Compute|\w+Op)$'),
             ('wdl_limited/camera/camera_model.cc', r'CameraModel::\w+$')])

P('P26', 'Python metric classes feed the operators the tensors the user supplied',
  'The Python detection, tracking, motion and matching interfaces pass each user tensor to the operator input of the same '
  'meaning, with the configured defaults, and return or accumulate each operator output under the name of its breakdown. '
  'The breakdown names they list are, in order, those the native code produces for the same configuration.',
  ['inputs', 'configurations', 'histories'], 'every configuration, call and sequence of updates',
  'The tests need TensorFlow and the native operators; ordering and pairing of some twenty tensors is not checked by any '
  'single run.',
  [('wrappers', 'metrics/python/detection_metrics.py, tracking_metrics.py, motion_metrics.py, matcher.py, wod_detection_evaluator.py'),
   ('names', 'metrics/python/config_util_py.py')],
  py=[MP + x for x in ('config_util_py', 'detection_metrics', 'matcher', 'motion_metrics', 'tracking_metrics', 'wod_detection_evaluator')],
  uses=['P08'])

P('P27', 'Rater feedback scores follow the trust region of each rater as defined',
  'For every batch of predictions and rater trajectories, the score of a prediction at a time is the rater score inside '
  'the speed-scaled lateral and longitudinal trust region of that rater trajectory and decays from it outside, with '
  'the documented floor; the result takes, per example, the best rater and the probability-weighted predictions, '
  'ignoring padded raters.',
  ['inputs', 'configurations'], 'every batch, number of raters, sampling rate and output mode',
  'Three tests with fixed arrays cover the common mode; thresholds, interpolation and padding have to hold for every '
  'speed, time and rater count.',
  [('score', 'metrics/python/rater_feedback_utils.py')], py=['metrics.python.rater_feedback_utils'])

P('P28', 'Map plotting draws every map feature with its own points, type and style',
  'Every lane, road line, road edge, stop sign, crosswalk, speed bump and driveway of a map is turned into points of its '
  'own polyline or polygon, tagged with its own feature kind and identifier, and every point set is drawn once with '
  'the style of its kind.',
  ['inputs'], 'every map',
  'Seven tests check one feature of each kind; the mapping from each type value to its kind and style is not '
  'covered.',
  [('plotting', 'utils/plot_maps.py')], py=['utils.plot_maps'])

P('P29', 'Latency tools run every frame once and keep its objects and time',
  'The latency tools feed each frame of each input directory once, with exactly the requested fields, time only the '
  'inference call and store for each frame the detections that were returned; object files built from them keep the '
  'frame, context, class, score and box of each detection. The comparison with a submission accepts only files whose '
  'objects agree within the tolerance.',
  ['inputs', 'histories'], 'every input directory, detection set and pair of files',
  'No stable test runs these tools; field mapping and comparison rules must be right for every frame.',
  [('evaluator', 'latency/wod_latency_evaluator.py'), ('files', 'latency/make_objects_file_from_latency_results.py'),
   ('comparison', 'latency/compare_objects_file_to_submission_main.cc')],
  py=['latency.wod_latency_evaluator', 'latency.make_objects_file_from_latency_results'],
  cxx_extra=[('latency/compare_objects_file_to_submission_main.cc', r'^main$|DefaultGenFor')])

P('P30', 'Frame utilities return every laser, return and camera of a frame unchanged',
  'Parsing a frame decompresses each laser\'s first and second return, camera projection and pose image under that laser\'s '
  'name; conversion to points concatenates lasers in name order with their camera projections; the '
  'dictionary form holds each documented value under its documented key.',
  ['inputs'], 'every frame',
  'The tests need TensorFlow and one frame; the pairing of laser, return and key has to hold for each.',
  [('frames', 'utils/frame_utils.py'), ('comparison', 'utils/example_utils.py')],
  py=['utils.frame_utils', 'utils.example_utils'], uses=['P17', 'P32'])

P('P31', 'Camera segmentation labels decode, merge and score consistently',
  'Encoding semantic and instance labels and decoding the panoptic label are inverse for the divisor in use; labels of '
  'several cameras and frames get the same instance identifier exactly when they are the same global instance, '
  'and instances of one sequence never share an identifier with another object. The tracking-quality metric receives for each frame the '
  'prediction and truth of that same frame and ignores the classes it is documented to ignore.',
  ['inputs', 'histories'], 'every sequence of label images and mapping tables',
  'The tests need TensorFlow and two tiny images; divisor limits and remapping must hold for every label value.',
  [('labels', 'utils/camera_segmentation_utils.py'), ('metric', 'wdl_limited/camera_segmentation/camera_segmentation_metrics.py')],
  py=['utils.camera_segmentation_utils', 'wdl_limited.camera_segmentation.camera_segmentation_metrics'])

P('P32', 'Box, transform and trajectory geometry uses each parameter in its own role',
  'Rotation and transform matrices, box corners, point-in-box tests, convex-polygon distances and Minkowski sums are the '
  'documented function of roll, pitch, yaw, translation, centre, size and heading, with points exactly on '
  'a face treated as documented. Trajectory containers read, slice, gather and pad every field alike.',
  ['inputs'], 'every box, pose, point set and trajectory',
  'The tests need TensorFlow and a few boxes; a swapped axis or sign on one branch needs an input that separates the '
  'two.',
  [('geometry', 'utils/transform_utils.py, utils/geometry_utils.py, utils/box_utils.py'), ('trajectories', 'utils/trajectory_utils.py')],
  py=['utils.transform_utils', 'utils.geometry_utils', 'utils.box_utils', 'utils.trajectory_utils'])

P('P33', 'Sensor data is attached to the motion scenario and step it belongs to',
  'Augmenting a motion scenario with lidar or camera data requires the same scenario, adds each frame\'s data once in '
  'time order, and leaves everything else of the scenario as it was; extracted points use the first and second '
  'return of each laser with that laser\'s calibration and pose, and camera tokens select the codebook row of '
  'their own index.',
  ['inputs'], 'every scenario and sensor record',
  'The tests need TensorFlow and one scenario; sensor-by-sensor pairing has to hold for each.',
  [('lidar', 'utils/womd_lidar_utils.py'), ('camera', 'utils/womd_camera_utils.py')],
  py=['utils.womd_lidar_utils', 'utils.womd_camera_utils'], uses=['P17', 'P18', 'P32'])

P('P34', 'Object-asset rays and frames transform and decode consistently',
  'Points and directions move between vehicle, box and camera frames with the rotation and translation of that frame, the '
  'inverse undoing the forward transform; ray-box intersections are reported for exactly the rays that meet the box, with near '
  'and far distance in order. Encoded ray data decodes with the same field layout, and each sampled pixel keeps its own ray.',
  ['inputs'], 'every pose, box, ray and encoded ray table',
  'The tests need TensorFlow and a few rays; sign and axis errors show only for asymmetric inputs.',
  [('transforms', 'v2/perception/utils/object_asset_utils.py'), ('codec', 'v2/perception/utils/object_asset_codec.py')],
  py=['v2.perception.utils.object_asset_utils', 'v2.perception.utils.object_asset_codec'])

P('P35', 'Command-line metric and submission tools evaluate and write what they read',
  'Each tool reads every object or frame of its input files, groups predictions and ground truths by their own context and time, evaluates them with the '
  'documented configuration and prints each metric next to its own name. The submission builder puts each shard, '
  'method description and flag in the field of the same meaning and refuses missing or inconsistent input.',
  ['inputs', 'configurations'], 'every pair of input files and set of flags',
  'No test runs the tools on more than a sample file; grouping and configuration constants hold for every input or not at all.',
  [('tools', 'metrics/tools/*.cc, metrics/tools/*.py')],
  cxx_extra=[(M + 'tools/%s' % x, r'^main$|DefaultGenFor') for x in ('compute_detection_let_metrics_main.cc', 'compute_detection_metrics_main.cc',
             'compute_segmentation_metrics_main.cc', 'compute_tracking_metrics_main.cc', 'create_submission.cc')],
  py=['metrics.tools.create_prediction_file_example', 'metrics.tools.create_segmentation_prediction_file_example'])

P('P36', 'Planar geometry predicates and constructions are as documented',
  'Box, segment and polygon operations (corners, edges, containment, distance, intersection, bounding box, area) are the '
  'documented functions of their vertices, including the documented treatment of points on an edge, touching segments and '
  'degenerate shapes; each accessor returns the vertex, side or axis it names.',
  ['inputs'], 'every box, segment and polygon',
  'Tests sample a few shapes in general position; boundary comparisons and index arithmetic around the last vertex need '
  'special ones.',
  [('planar geometry', 'math/box2d.cc, box2d.h, aabox2d.h, segment2d.cc, segment2d.h, polygon2d.cc, polygon2d.h, vec2d.h, vec3d.h, math_util.h')],
  cxx=['math/box2d.cc', 'math/polygon2d.cc', 'math/segment2d.cc'],
  cxx_extra=[('math/' + x, r'.') for x in ('aabox2d.h', 'box2d.h', 'segment2d.h', 'polygon2d.h', 'vec2d.h', 'vec3d.h', 'math_util.h')] + [('math/polygon2d.cc', r'::(CrossMaybeExact|ExactIntersection)$')],
  cxx_inline=[('.h', r'.')])

P('P37', 'Exact arithmetic used by geometry predicates is exact',
  'Every exact-number operation (construction, comparison, addition, subtraction, multiplication, rounding, conversion, '
  'printing) yields the mathematically exact result or the documented rounding, with the documented treatment of '
  'zero, infinity, sign and not-a-number.',
  ['inputs'], 'every pair of exact numbers and rounding mode',
  'No stable test reaches this code; special values and exponent limits need specific operands.',
  [('exact numbers', 'math/exactfloat.cc, math/exactfloat.h')],
  cxx=['math/exactfloat.cc'], cxx_extra=[('math/exactfloat.h', r'.')], cxx_skip=[('math/exactfloat.h', r'BigNum::')], cxx_inline=[('math/exactfloat.h', r'.')])

BY_ID = {p['id']: p for p in PROPS}

# Properties worth having that this family cannot decide here.
DECLINED = []


def N(id, title, statement, over, text, why, mech, files, reason):
  assert len(title) <= 80, title
  DECLINED.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, mech=mech, files=files, reason=reason))


N('N01', 'The assignment found by the optimal matcher has maximum total weight',
  'For every weight matrix the optimal matching policy returns a one-to-one assignment whose total weight no other '
  'assignment exceeds.', ['inputs'], 'every weight matrix',
  'Tests enumerate small matrices only.', [('assignment', 'metrics/hungarian.cc')], ['src/waymo_open_dataset/metrics/hungarian.cc'],
  'Optimality is a loop-invariant argument about dual potentials over runtime values; no dataflow, typestate or '
  'shape rule decides it. P10 decides the structural part (which weights are built, thresholded and reported).')
N('N02', 'Polygon overlap areas are accurate to rounding',
  'For every pair of valid boxes or polygons the computed intersection area differs from the exact area by no more than rounding error.',
  ['inputs'], 'every pair of polygons', 'Tests sample random boxes.', [('clipping', 'math/polygon2d.cc')],
  ['src/waymo_open_dataset/math/polygon2d.cc'],
  'A bound on floating-point error over all inputs needs numerical reasoning over runtime values. P36 decides which '
  'formula is applied to which vertex.')
N('N03', 'Compressed range images decode to within the quantisation step',
  'For every array and precision, decoding an encoded array gives values within half a quantisation step of the original.',
  ['inputs'], 'every array', 'Tests use random arrays of two shapes.', [('codec', 'utils/compression/delta_encoder.py')],
  ['src/waymo_open_dataset/utils/compression/delta_encoder.py'],
  'Round-trip equality of two algorithms over all array values is semantic equality of runtime results. P18 decides '
  'that the two sides use the same fields, order, scales and masks.')
N('N04', 'Projecting a pixel to the world and back returns the pixel',
  'For every calibration with moderate distortion, the inverse projection followed by the projection is the identity up to the '
  'convergence tolerance.', ['inputs'], 'every calibration and pixel', 'One calibration is tested.',
  [('camera model', 'wdl_limited/camera/camera_model.cc')], ['src/waymo_open_dataset/wdl_limited/camera/camera_model.cc'],
  'Convergence of the iterative undistortion depends on runtime coefficients. P23 decides the formulas, their parameters and their order.')
N('N05', 'No accepted input makes native code read or write out of bounds',
  'For every tensor, message or file that passes validation, the native code terminates without out-of-range access, overflow or '
  'division by zero.', ['inputs'], 'every input', 'Tests pass well-formed inputs.',
  [('native code', 'metrics/, data_conversion/, wdl_limited/camera/')], ['src/waymo_open_dataset/metrics'],
  'Index ranges depend on sizes and values of run-time messages that validation only partly constrains; a sound bounds analysis '
  'reports many sites no rule can separate from safe ones. The checks that do exist are obligations of P03, P04, P10-P14.')
N('N06', 'Reported average precision never decreases when a true positive gains score',
  'Raising the score of a correct detection, everything else fixed, never lowers its reported average precision.',
  ['inputs'], 'every pair of score lists', 'Needs pairs of runs.', [('curve', 'metrics/metrics_utils.cc')],
  ['src/waymo_open_dataset/metrics/metrics_utils.cc'],
  'A monotonicity statement about two runs over runtime scores. P11 decides the curve formula.')
N('N07', 'Likelihood estimators integrate to one',
  'Every density or histogram the realism metrics fit assigns total probability one over its support.',
  ['inputs'], 'every sample set', 'Tests compare a few values.', [('estimators', 'wdl_limited/sim_agents_metrics/estimators.py')],
  ['src/waymo_open_dataset/wdl_limited/sim_agents_metrics/estimators.py'],
  'A numerical identity of library densities over runtime samples. P20 decides how the estimators are configured and combined.')

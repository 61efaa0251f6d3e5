#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("P01", "Every estimate is reported once, every ground truth used at most once",
 "When the estimates of a frame are paired with its ground truths, every estimate appears in exactly one result and every ground truth in at most one result. Objects come out with exactly the content they went in with, and nothing else comes out. This holds for any number, order and mix of labels, including duplicates and empty lists.",
 ["inputs"], "all lists of estimates and ground truths (sizes, orders, label mixes, duplicates, crowded and sparse scenes)",
 "The only test of pairing is a doc test that pairs one object with one ground truth and asserts nothing about the outcome; loss and duplication need several objects.",
 ["src/result/object.rs"], [("greedy pairing over the score table, leftover handling", "src/result/object.rs:get_perception_results"), ("false-positive results for leftovers", "src/result/object.rs:get_fp_perception_results")],
 ["return value of get_perception_results", "PerceptionEvaluationManager.frame_results"],
 [dict(name="score_table", meaning="remaining candidate pairs", where="src/result/object.rs")])

prop("P02", "Pairs have the same label and are closest first",
 "An estimate is paired only with a ground truth of the same label, and it is left unpaired only if every ground truth of its label is taken by other estimates. No estimate and ground truth of the same label are strictly closer to each other (3D centre distance) than each of them is to what it was paired with. The pairing does not depend on the order in which the objects are listed when all distances differ.",
 ["inputs"], "all lists of estimates and ground truths",
 "No test has two candidates for one object, so neither closeness, label separation nor order independence is exercised.",
 ["src/result/object.rs", "src/matching.rs"], [("score table of same-label pairs", "src/result/object.rs:get_score_table"), ("choice of the best remaining pair", "src/result/object.rs:get_perception_results"), ("centre distance", "src/matching.rs:CenterDistanceMatching")],
 ["return value of get_perception_results"])

prop("P03", "Filtering keeps exactly the objects that satisfy the criteria",
 "Filtering keeps exactly the objects whose label is one of the target labels and whose absolute x and absolute y are each strictly below the configured maximum; a ground truth must also have at least the minimum number of points (when its count is known) and, when a list of instance ids is given, an id on that list. Point counts and instance ids never affect estimates. Kept objects are unchanged and keep their order.",
 ["inputs", "configurations"], "all object lists and all filter parameter sets (labels in any order, limits, optional criteria present or absent)",
 "One test keeps a single object far inside all limits and one doc test drops one on position; boundaries, missing counts and ids, and the estimate/ground-truth distinction are not reached.",
 ["src/filter.rs", "src/config.rs", "src/threshold.rs"], [("filter_objects", "src/filter.rs"), ("is_target_object", "src/filter.rs"), ("FilterParams::new", "src/config.rs")],
 ["return value of filter_objects", "filtered ground truths of a frame result"])

prop("P04", "A frame splits exactly into hits, false alarms and misses",
 "In a frame result every result whose label is a target label is reported either as true positive or as false positive, never as both and never twice: as true positive exactly if it has a ground truth and its score in the chosen matching mode beats the threshold configured for its label. Every ground truth not covered by a true positive is reported as missed and no other is, so true positives plus misses equal the number of ground truths. The given results and ground truths are kept unchanged and in order.",
 ["inputs", "configurations"], "all result lists, ground-truth lists, target label orders, per-label thresholds and the four matching modes",
 "No test constructs a frame result; thresholds are only tested with one label at the first position.",
 ["src/result/frame.rs", "src/result/object.rs", "src/threshold.rs"], [("separate_tp_fp_results", "src/result/frame.rs"), ("extract_fn_objects", "src/result/frame.rs"), ("get_label_threshold", "src/threshold.rs"), ("is_result_correct", "src/result/object.rs")],
 ["PerceptionFrameResult accessors"])

prop("P05", "AP is the area under the interpolated precision-recall curve",
 "For every target label and matching mode the reported AP is the area under the precision-recall curve of all accumulated results of that label ranked by descending confidence, where a result is a hit if it has a ground truth and beats the threshold, recall is relative to the number of accumulated ground truths of that label, and precision at a recall is the best precision reached at that or any higher recall. Frame boundaries and the order of accumulation do not matter.",
 ["inputs", "histories", "configurations"], "all histories of frames with any hit/false-alarm pattern, confidences, numbers of ground truths, target labels and thresholds",
 "No test computes a score; the curve has to be right for every ranking and every hit pattern.",
 ["src/metrics/detection.rs", "src/metrics/score.rs", "src/metrics/tp_metrics.rs", "src/manager.rs"], [("Ap::calculate_ap", "src/metrics/detection.rs"), ("calculate_tp_fp", "src/metrics/detection.rs"), ("interpolate_precision_recall", "src/metrics/detection.rs"), ("pooling of frames", "src/manager.rs:get_metrics_score")],
 ["printed MetricsScore of get_metrics_score"])

prop("P06", "APH weights each hit by heading agreement",
 "The reported APH is computed exactly like AP except that each hit counts 1 - d/pi instead of 1 in both precision and recall, where d is the smallest absolute angle between the headings of the estimate and its ground truth. This holds for every pair of headings, in every quadrant and across the +-pi wrap. APH therefore equals AP when headings agree, never exceeds it, and is zero when all headings are opposite.",
 ["inputs", "histories"], "all histories and all pairs of headings, including tilted boxes and both signs of a quaternion",
 "The only test uses two identical headings of zero.",
 ["src/metrics/tp_metrics.rs", "src/metrics/detection.rs", "src/object/object3d.rs", "src/utils/math.rs"], [("TPMetricsAPH::get_value", "src/metrics/tp_metrics.rs"), ("heading", "src/object/object3d.rs")],
 ["printed MetricsScore of get_metrics_score"])

prop("P07", "Scores obey the laws of a detection metric for every history",
 "For every history of detection frames computing the scores succeeds, AP and APH lie in [0, 1], and they are NaN exactly for labels with neither results nor ground truths: 1 if every ground truth is detected perfectly with no false alarm, 0 if there are ground truths but no estimates. They do not depend on the order of the frames or of the objects in them (with distinct confidences and distances), a false alarm below all other confidences never raises them, and listing a label twice changes nothing. Reading the scores, any number of times and at any moment, changes neither them nor what later reads return.",
 ["inputs", "histories"], "all sequences of added frames (empty frames, frames without estimates or ground truths, labels never seen) with score reads interleaved",
 "No test reads a score; order independence, neutrality of reads and boundary histories quantify over histories.",
 ["src/manager.rs", "src/metrics/score.rs", "src/metrics/detection.rs"], [("get_metrics_score", "src/manager.rs"), ("calculate_ap", "src/metrics/detection.rs")],
 ["printed MetricsScore of get_metrics_score"])

prop("P08", "Accumulated evaluation equals the specified pipeline end to end",
 "After any sequence of added frames an evaluation manager holds exactly one frame result per added frame, in order, and adding a frame never alters earlier ones. Each of them is what filtering estimates and ground truths, pairing them by centre distance and classifying them with the configured plane-distance thresholds yields, and keeps the timestamp of its ground truth. The scores are those of all frames together, for centre distance and plane distance with their configured thresholds, with ground truths counted after filtering; tasks other than detection give an error.",
 ["inputs", "histories", "configurations"], "all configurations and all sequences of added frames, including repeated and empty frames and arbitrary interleaving of lookups and score reads",
 "The example run has one frame whose estimates are the ground truths; no test adds a frame.",
 ["src/manager.rs", "src/filter.rs", "src/result/object.rs", "src/result/frame.rs", "src/metrics/score.rs"], [("add_frame_result", "src/manager.rs"), ("get_metrics_score", "src/manager.rs"), ("filter_frame_ground_truth", "src/manager.rs"), ("evaluate_detection", "src/metrics/score.rs")],
 ["PerceptionEvaluationManager.frame_results", "printed MetricsScore"],
 [dict(name="frame_results", meaning="accumulated history", where="src/manager.rs")])

prop("P09", "Centre distance is Euclidean and beats a threshold strictly",
 "In centre-distance mode a pair is correct exactly if the 3D Euclidean distance of the two centres is strictly less than the threshold; a result without ground truth is never correct. The distances of a box from a point or the origin, in 3D and in the ground plane (x, y), are the Euclidean ones, symmetric and zero only for equal points. A larger threshold never turns a correct pair into an incorrect one.",
 ["inputs"], "all pairs of positions and thresholds, including thresholds equal to the distance and large coordinates",
 "Tests use coincident centres (distance 0) and one pair of points.",
 ["src/matching.rs", "src/utils/point.rs", "src/object/object3d.rs", "src/result/object.rs"], [("CenterDistanceMatching", "src/matching.rs"), ("distance_points, distance_points_bev", "src/utils/point.rs")],
 ["PerceptionResult.is_result_correct", "DynamicObject distance accessors", "utils::point"])

prop("P10", "Plane distance compares the sides nearest to the ego vehicle",
 "In plane-distance mode the score of a pair is the root mean square of the ground-plane distances between the left corners and between the right corners of the sides of the two boxes nearest to the origin, the nearest side being given by the two corners nearest to the origin and left and right being as seen from the origin. The pair is correct exactly if this score is strictly less than the threshold; the score is symmetric, zero for identical boxes, and unaffected by rotating the whole scene about the origin.",
 ["inputs"], "all pairs of boxes around the ego vehicle in every direction and heading, and all thresholds",
 "The only test compares a box with itself, which gives zero whatever corners are chosen.",
 ["src/matching.rs", "src/utils/point.rs", "src/object/object3d.rs"], [("PlaneDistanceMatching", "src/matching.rs"), ("get_point_left_right", "src/utils/point.rs"), ("footprint", "src/object/object3d.rs")],
 ["PerceptionResult.is_result_correct", "utils::point::get_point_left_right"])

prop("P11", "IoU in the ground plane is the true overlap ratio",
 "For upright boxes the 2D IoU score is the area common to the two oriented ground-plane rectangles divided by the area of their union. It is symmetric, lies in [0, 1], is 1 for identical rectangles and 0 for disjoint ones, and does not change when both boxes are moved and turned together. A pair is correct exactly if the score is strictly greater than the threshold.",
 ["inputs"], "all pairs of oriented boxes: overlapping, nested, touching, disjoint, axis-aligned and rotated, and all thresholds",
 "The only test compares a box with itself.",
 ["src/matching.rs", "src/object/object3d.rs"], [("Iou2dMatching", "src/matching.rs"), ("get_intersection_area", "src/matching.rs"), ("footprint, area", "src/object/object3d.rs")],
 ["PerceptionResult.is_result_correct"])

prop("P12", "IoU in 3D is the true volume overlap ratio",
 "For upright boxes the 3D IoU score is the volume common to the two boxes divided by the volume of their union, so it is zero as soon as they do not overlap in height. It is symmetric, lies in [0, 1], is 1 for identical boxes and never exceeds the height overlap ratio. A pair is correct exactly if the score is strictly greater than the threshold.",
 ["inputs"], "all pairs of oriented boxes with any height offset, and all thresholds",
 "The only test compares a box with itself.",
 ["src/matching.rs", "src/object/object3d.rs"], [("Iou3dMatching", "src/matching.rs"), ("get_intersection_height", "src/matching.rs"), ("volume", "src/object/object3d.rs")],
 ["PerceptionResult.is_result_correct"])

prop("P13", "The footprint of a box is its oriented rectangle",
 "The footprint of a box has four corners: front left, rear left, rear right and front right, at half the length along the heading and half the width across it from the centre, rotated by the full orientation of the box. Length is the second and width the first component of the size. Area is width times length, volume is that times height, and the rotation matrix of the box is the one its orientation denotes.",
 ["inputs"], "all positions, sizes and orientations (any heading, tilted boxes)",
 "The only test uses the identity orientation and a square box, which cannot tell length from width or one direction of rotation from the other.",
 ["src/object/object3d.rs", "src/utils/math.rs"], [("footprint", "src/object/object3d.rs"), ("quaternion2rotation", "src/utils/math.rs")],
 ["DynamicObject.footprint, area, volume, rotation_matrix, heading"])

prop("P14", "Rotations and translations form a proper rigid motion group",
 "Rotating a point by a unit quaternion is the right-handed rotation that the quaternion and its rotation matrix denote; rotating an orientation gives the orientation that acts like doing both rotations one after the other. The inverse quaternion, rotation and translation undo the original ones for any input. Moving a dataset box moves its position and turns its orientation accordingly and leaves size, name, ids and point count alone.",
 ["inputs"], "all points, all unit quaternions and all sequences of motions",
 "Every test uses the identity quaternion, for which all wrong rotations agree.",
 ["src/utils/math.rs", "src/dataset/nuscenes/box.rs"], [("rotate, rotate_inv, rotate_q, rotate_q_inv", "src/utils/math.rs"), ("inverse_quaternion", "src/utils/math.rs"), ("NuScenesBox motions", "src/dataset/nuscenes/box.rs")],
 ["utils::math functions", "NuScenesBox"])

prop("P15", "Euler angles and heading describe the orientation on the full circle",
 "The reported roll, pitch and yaw are finite for every unit quaternion, and unless the pitch is a right angle, rotating by them (roll, then pitch, then yaw) reproduces the orientation. The heading is the direction of the yaw rotation in [-pi, pi] on the full circle. A quaternion and its negation give the same angles.",
 ["inputs"], "all unit quaternions, including half turns, quarter turns and vertical boxes",
 "The only tests use the identity quaternion.",
 ["src/utils/math.rs", "src/object/object3d.rs"], [("quaternion2euler", "src/utils/math.rs"), ("heading, euler", "src/object/object3d.rs")],
 ["quaternion2euler", "DynamicObject.euler, heading"])

prop("P16", "Frame lookup returns the nearest frame within 75 ms or none",
 "Looking up the ground truth for a timestamp returns a frame whose timestamp is nearest to it if that is less than 75 ms away, and nothing otherwise; of equally near frames it returns the first. The frame is returned unchanged, and neither the order nor the number of frames nor the direction of the difference matters.",
 ["inputs"], "all lists of frames (empty, unsorted, duplicated timestamps) and all timestamps to the nanosecond",
 "No test looks up a frame; the example looks up exact timestamps of one frame.",
 ["src/dataset.rs", "src/manager.rs"], [("get_current_frame", "src/dataset.rs"), ("get_frame_ground_truth", "src/manager.rs")],
 ["return value of get_current_frame", "PerceptionEvaluationManager.get_frame_ground_truth"])

prop("P17", "A loaded dataset is faithful to its files and fully navigable",
 "After loading a consistent dataset every record of every table is enumerated exactly once with the field values of the file (timestamps to the microsecond), and every link from a record leads to the record that bears that token. Samples, sample data, ego poses and scenes are enumerated by time, the samples of a scene and the annotations of an instance in chain order, and a sample lists exactly the annotations and sample data that refer to it. Loading the same files again, and in whatever order the records are stored, gives the same enumeration of those.",
 ["inputs", "configurations"], "all consistent datasets: any number of scenes, samples, instances, sensors; any order of records in the files; equal timestamps",
 "The only dataset in the tests has one scene with one sample and one annotation, and tests check only its version and directory.",
 ["src/dataset/nuscenes.rs", "src/dataset/nuscenes/internal.rs", "src/dataset/nuscenes/iter.rs", "src/dataset/nuscenes/iter_impl", "src/dataset/nuscenes/schema.rs"], [("NuScenes::load", "src/dataset/nuscenes.rs"), ("SceneInternal::from, InstanceInternal::from", "src/dataset/nuscenes/internal.rs"), ("table iterators and links", "src/dataset/nuscenes/iter_impl")],
 ["NuScenes iterators and WithDataset links"])

prop("P18", "Inconsistent datasets are rejected, consistent ones accepted",
 "Loading a dataset returns an error if a table is missing or malformed, a token refers to no record (other than a log listed by a map), a chain of samples or annotations has wrong previous, next, first or last links or does not end, holds a record of another scene or instance or leaves out one of its own, or a stated count is wrong. It never panics or runs forever on such a dataset. Consistent datasets load, including ones with samples that have no annotation or no sensor data and maps that list unknown logs.",
 ["inputs", "fault_sequences"], "all single and combined reference, chain, count and table faults in datasets of any size",
 "Tests load one valid dataset; no test feeds a fault.",
 ["src/dataset/nuscenes.rs", "src/dataset/nuscenes/internal.rs"], [("integrity checks in NuScenes::load", "src/dataset/nuscenes.rs"), ("chain walks", "src/dataset/nuscenes/internal.rs")],
 ["result of NuScenes::load and load_dataset"])

prop("P19", "Ground truths are the annotations expressed in the ego frame",
 "Loading a dataset for evaluation in the ego frame (base_link) gives one frame per sample in time order with the timestamp of the sample, and in it each annotation of the sample exactly once: with position and orientation relative to the ego pose of the lidar record at the time of the sample, the size, number of lidar points and instance id of the annotation, the label of its category and confidence 1. A sample with no lidar record at its own timestamp gives a frame without objects. Boxes requested in the sensor frame are additionally relative to the calibrated pose of that sensor.",
 ["inputs", "configurations"], "all datasets: any ego and sensor poses, several sensors, sweeps and lidars per sample, empty samples",
 "The doc tests load one sample and look at nothing in it; wrong transforms cannot be seen.",
 ["src/dataset.rs", "src/dataset/nuscenes.rs", "src/dataset/nuscenes/box.rs", "src/utils/math.rs", "src/label.rs"], [("load_dataset, sample_to_frame", "src/dataset.rs"), ("get_sample_data, get_boxes, get_box", "src/dataset/nuscenes.rs")],
 ["return value of load_dataset", "NuScenes.get_sample_data"])

prop("P20", "Dataset records survive being written and read again",
 "Every dataset record read from JSON and written back reads as the same record again: timestamps to the microsecond in the same unit, absent links, visibility and log files as empty strings, camera matrices as 3x3 or empty, enumerations by their names, all numbers up to rounding of the last digit. A token is 32 hexadecimal digits, prints as lower-case hex and parses back to itself; any other text is rejected. Alternative spellings of formats, levels and channels are accepted on reading.",
 ["inputs"], "all field values of all 13 record types and all token strings",
 "No test serializes anything or parses a malformed token.",
 ["src/dataset/nuscenes/schema.rs"], [("timestamp_serde, opt_long_token_serde, opt_string_serde, camera_intrinsic_serde, logfile_serde", "src/dataset/nuscenes/schema.rs"), ("LongToken, ShortToken", "src/dataset/nuscenes/schema.rs")],
 ["serde round trip of the schema types", "LongToken, ShortToken conversions"])

prop("P21", "Sensor data is loaded exactly as stored",
 "Loading a lidar record gives a matrix with one row per point of the file, in file order, holding its five 32-bit floats bit for bit; a file that is empty or does not hold a whole number of points gives an error. Loading an image record gives the pixels of the image. Raw reads return the bytes of the file, and a missing file gives an error.",
 ["inputs"], "all point clouds (number of points, any float bit patterns, any file length) and images, under any lidar directory name of the dataset format",
 "No test loads sensor data.",
 ["src/dataset/nuscenes/iter_impl/sample_data.rs"], [("load, load_raw, open", "src/dataset/nuscenes/iter_impl/sample_data.rs")],
 ["WithDataset<SampleData>.load, load_raw, open", "NuScenes.get_sample_data_path"])

prop("P22", "No file content can crash the loaders",
 "Whatever bytes the table files, the scenario file and the point cloud files contain, loading them and walking through everything that was loaded ends with a value or an error: no panic, no memory error, no endless loop. Errors name the offending file when it is malformed.",
 ["inputs", "fault_sequences"], "all byte strings in place of any of the files; explored by truncation, corruption, splicing and type confusion of valid files, under AddressSanitizer",
 "Tests read only well-formed fixtures.",
 ["src/dataset/nuscenes.rs", "src/dataset/nuscenes/schema.rs", "src/dataset/nuscenes/internal.rs", "src/dataset/nuscenes/iter_impl/sample_data.rs", "src/config.rs", "src/config/schema.rs"], [("load_json, integrity checks", "src/dataset/nuscenes.rs"), ("load_yaml", "src/config.rs"), ("custom deserializers", "src/dataset/nuscenes/schema.rs")],
 ["results of NuScenes::load, load_dataset, PerceptionEvaluationConfig::from, SampleData.load"])

prop("P23", "A scenario file determines the configuration completely",
 "A valid scenario gives a configuration with the dataset path and version, task, frame, target labels in order, position limits, minimum point number, target ids and matching thresholds it states, each applied to every target label, and with the log and visualization directories under the result directory. A scenario that is missing, malformed, or has a missing, ill-typed or unknown value (a dataset entry has to name exactly one dataset) gives an error and never a panic. Scenarios can be loaded any number of times in a process with independent results.",
 ["inputs", "configurations", "histories"], "all scenario contents and all sequences of loads in one process",
 "Tests load one scenario once per process and look at nothing in the result.",
 ["src/config.rs", "src/config/schema.rs", "src/utils/logger.rs"], [("PerceptionEvaluationConfig::from", "src/config.rs"), ("FilterParams::new, MetricsParams::new", "src/config.rs"), ("scenario schema", "src/config/schema.rs")],
 ["PerceptionEvaluationConfig fields", "behaviour of filter_objects and the printed thresholds under the configuration"])

prop("P24", "Names of labels, frames and tasks convert totally and consistently",
 "Every category and label name of the documented naming scheme converts to its label whatever its letter case, and every other text converts to the unknown label. Every label, frame and task prints a name that converts back to it; frames and tasks accept exactly their CamelCase and snake_case names and reject any other text, and a naming scheme other than autoware, in exactly this spelling, is rejected. A list of names converts element by element, in order.",
 ["inputs"], "all strings",
 "Tests convert three names; a table of some fifty names and the complement of it are not sampled.",
 ["src/label.rs", "src/frame_id.rs", "src/evaluation_task.rs"], [("LabelConverter", "src/label.rs"), ("FromStr and Display of FrameID", "src/frame_id.rs"), ("FromStr and Display of EvaluationTask", "src/evaluation_task.rs")],
 ["LabelConverter::convert, convert_labels", "FrameID::from_str", "set_task"])

prop("P25", "The log file holds exactly the messages at or above its level",
 "Once logging is set up, every message at or above the chosen level, from any thread, is written to the log file of the chosen directory exactly once, as level and text on one line, in the order each thread issued them; messages below the level are not written. Setting logging up again switches to the new directory and level from then on, and the earlier file keeps what it had. A directory that cannot be created gives an error.",
 ["histories", "schedules", "configurations"], "all sequences of set-ups and messages, from one or several threads",
 "The tests set up the logger once per process and never look at the file.",
 ["src/utils/logger.rs"], [("configure_logger", "src/utils/logger.rs")],
 ["contents of <log_dir>/output.log"],
 [dict(name="HANDLE", meaning="handle of the logger of the process", where="src/utils/logger.rs")])

prop("P26", "Concurrent evaluations do not disturb each other",
 "Evaluations, dataset loads, lookups and score reads running in several threads of one process give the same results as when they run one after the other, also when they share a configuration, a loaded dataset or a manager that is only read. There are no data races, deadlocks or panics.",
 ["schedules", "inputs"], "all interleavings of concurrent evaluations; explored by repeated runs with random delays under ThreadSanitizer",
 "The tests run each evaluation alone in its own process.",
 ["src/manager.rs", "src/dataset.rs", "src/dataset/nuscenes.rs", "src/utils/logger.rs", "src/matching.rs", "src/metrics/detection.rs"], [("absence of shared mutable state", "src/manager.rs, src/metrics, src/matching.rs"), ("locked logger handle", "src/utils/logger.rs")],
 ["printed scores, frame results and loaded frames per thread", "ThreadSanitizer reports"])

prop("P27", "The printed report is complete and consistent",
 "The printed score has one section per matching mode, centre distance first and plane distance next, each with every target label in configured order with its threshold and its AP and APH to three decimals. The mAP and mAPH printed in a section are the arithmetic means of the values of its labels. Printing never fails and printing again gives the same values.",
 ["inputs", "configurations", "histories"], "all configurations (number, order and repetition of labels, thresholds) and histories",
 "No test prints a score.",
 ["src/metrics/detection.rs", "src/metrics/score.rs"], [("Display of DetectionMetricsScore", "src/metrics/detection.rs"), ("Display of MetricsScore", "src/metrics/score.rs")],
 ["printed MetricsScore"])

prop("P28", "Degenerate numbers in objects do no harm",
 "Objects with degenerate numbers (NaN, infinities, zero or negative sizes, zero quaternions, tiny and huge values) can be filtered, paired, classified in every matching mode, scored and printed without panic. Every estimate within the limits is still reported exactly once and every ground truth used at most once, and frames still split exactly into hits, false alarms and misses. A pair whose score depends on a NaN is never a hit. A box without area (or volume) overlaps nothing: no positive overlap threshold is beaten by it, not even by a pair of two such boxes. AP and APH stay in [0, 1] (NaN only for labels with neither results nor ground truths), and other labels score as if the degenerate objects were absent.",
 ["inputs"], "all lists of objects in which any numbers are replaced by NaN, infinities, zeros, negative, denormal or huge values, mixed with ordinary ones",
 "The tests use well-formed numbers only; a single NaN of a detector would end or falsify an evaluation of hours.",
 ["src/result/object.rs", "src/result/frame.rs", "src/matching.rs", "src/metrics/detection.rs", "src/filter.rs"], [("comparison of scores in pairing", "src/result/object.rs:get_perception_results"), ("ranking by confidence", "src/metrics/detection.rs"), ("overlap of polygons", "src/matching.rs")],
 ["return value of get_perception_results", "PerceptionFrameResult accessors", "printed MetricsScore"])

prop("P29", "Values are looked up at the first position of the label",
 "Looking up the threshold of a label in a list of labels gives the value at the first position of the label in the list, and none if the list lacks the label, for values of any type and lists of any length and with repetitions. Whether a result is correct for a label is decided by whether its labels agree and its score beats the threshold found that way.",
 ["inputs"], "all lists of labels and values (any order, repeated labels, labels not listed)",
 "The tests look up the only label of a list with one label.",
 ["src/threshold.rs", "src/result/object.rs", "src/label.rs"], [("get_label_threshold", "src/threshold.rs"), ("LabelThreshold", "src/threshold.rs"), ("is_label_correct", "src/result/object.rs")],
 ["return value of get_label_threshold", "LabelThreshold::get_threshold", "PerceptionResult::is_label_correct"])

prop("P30", "From files to scores the stages fit together",
 "An evaluation that starts from a scenario file and the dataset it names gives, for every frame looked up by time and every list of estimates added to it, the frame results and scores that follow from the contents of the two files: the scenario's labels, limits and thresholds applied to the dataset's annotations moved into the frame of the vehicle. The way the paths are written (relative, with dots, through symbolic links) does not matter.",
 ["inputs", "configurations", "histories"], "all consistent datasets and scenarios, and all histories of lookups and estimates on them",
 "The stages are tested one by one, on one sample dataset, and never chained up to a score.",
 ["src/manager.rs", "src/config.rs", "src/dataset.rs", "src/dataset/nuscenes.rs", "src/result/frame.rs", "src/metrics/score.rs"], [("PerceptionEvaluationConfig::from", "src/config.rs"), ("PerceptionEvaluationManager::from", "src/manager.rs"), ("add_frame_result", "src/manager.rs")],
 ["PerceptionEvaluationManager.frame_results", "printed MetricsScore"])

prop("P31", "An evaluation depends on nothing but its inputs",
 "Running an evaluation again in the same process, alone, after or interleaved with other evaluations of similar or different inputs, gives exactly the same frame results, scores and printed report, to the last bit and character. Copies of a manager, a configuration or a frame are independent: what is added to one does not show in the other.",
 ["inputs", "histories"], "all pairs of evaluations in one process, in any interleaving of their steps",
 "Every test runs one evaluation once; state kept between evaluations (caches, statics, random orders) shows only in the second.",
 ["src/manager.rs", "src/matching.rs", "src/metrics/detection.rs", "src/metrics/score.rs", "src/result/object.rs"], [("absence of state outside the manager", "src/manager.rs, src/metrics, src/matching.rs"), ("order of printed rows", "src/metrics/detection.rs")],
 ["PerceptionEvaluationManager.frame_results", "get_metrics_score and its printed text"])

prop("P32", "Nothing on disk changes outside the result directory",
 "Loading configurations and datasets (whole or damaged), evaluating, scoring and logging never create, change or delete anything outside the result directory of the configuration: dataset, scenario and working directory stay as they are, down to contents and times of change. Files that were in the result directory before are kept, except for the log file being appended to.",
 ["inputs", "histories", "faults"], "all runs on whole and damaged files",
 "The tests look at return values, not at the disk.",
 ["src/config.rs", "src/utils/logger.rs", "src/dataset/nuscenes.rs", "src/manager.rs"], [("creation of the result directories", "src/config.rs"), ("opening of the log file", "src/utils/logger.rs"), ("opening of tables and sensor files", "src/dataset/nuscenes.rs")],
 ["file system around scenario, dataset and result directory"])

prop("P33", "Repeated use accumulates no files, threads or memory",
 "Loading configurations and datasets (also damaged ones), reading sensor data, evaluating, scoring and setting up logging over and over in one process leaves, once the values are dropped, no open files, no threads and no memory behind beyond what the first rounds needed.",
 ["histories", "faults"], "all sequences of repeated operations",
 "Each test does a thing once and ends with its process; accumulation shows only over rounds.",
 ["src/dataset/nuscenes.rs", "src/manager.rs", "src/utils/logger.rs", "src/config.rs", "src/metrics/detection.rs"], [("opening of tables and sensor files", "src/dataset/nuscenes.rs"), ("replacement of the logger", "src/utils/logger.rs"), ("absence of global containers", "src")],
 ["entries of /proc/self/fd and /proc/self/task", "bytes allocated and not freed"])

prop("P34", "Objects compare and print by their values",
 "Two objects are equal exactly if they have the same timestamp, frame, position, orientation and label; two states exactly if they have the same position, orientation, size and velocity; two frames of ground truths exactly if they have the same time and equal objects in the same order. The printed text of an object or state states its numbers in full, so that reading it gives the same numbers back.",
 ["inputs"], "all pairs of objects that differ in any one or several fields, by much or by one unit in the last place",
 "No test compares objects that differ in one field only.",
 ["src/object/object3d.rs", "src/object.rs", "src/dataset.rs"], [("PartialEq and Display of DynamicObject", "src/object/object3d.rs"), ("PartialEq and Display of ObjectState", "src/object.rs"), ("PartialEq of FrameGroundTruth", "src/dataset.rs")],
 ["==, printed text"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

"""What each check runs: numbers of cases, workers, and how cases are made."""

# property: (cases quick, cases thorough, workers, how cases are made and which count as non-trivial)
PLAN = {
    "P01": (120_000, 6_000_000, 8, "Lists of up to 60 estimates and ground truths: crowded, sparse, one-label, mixed, duplicated and empty, given to get_perception_results or, through a manager, to a frame; the multiset of objects that come out is compared with that which went in. Non-trivial: at least two estimates and ground truths of one label."),
    "P02": (150_000, 8_000_000, 8, "Lists of estimates and ground truths with random, tied and nearly tied distances; each pairing is searched for blocking pairs and compared with the pairing of the shuffled lists. Non-trivial: an object with several candidates."),
    "P03": (300_000, 12_000_000, 8, "Object lists and filter settings with positions on, just inside and just outside the limits, unknown point counts, minimum point numbers, id lists; the output is compared with the stated rule. Non-trivial: something is dropped and something kept."),
    "P04": (120_000, 6_000_000, 8, "Result lists in the four matching modes with scores below, at and above the thresholds, duplicated objects, labels that are not targets; the split is compared with the rule. Non-trivial: hits and false alarms or misses together."),
    "P05": (16_000, 500_000, 8, "Histories with chosen hit patterns, tied and distinct confidences and several labels; AP is recomputed from the recorded results by an independent implementation. Non-trivial: hits and false alarms of one label."),
    "P06": (30_000, 1_000_000, 8, "Histories with chosen heading differences (all quadrants, across the wrap, negated quaternions, tilted boxes); APH is recomputed independently. Non-trivial: a hit with a heading error."),
    "P07": (2_500, 100_000, 8, "Whole histories through a manager, scored repeatedly and in varied order, with frames shuffled, false alarms added, labels repeated. Non-trivial: estimates and ground truths in some frame."),
    "P08": (20_000, 700_000, 8, "Histories through a manager with score reads and lookups interleaved; every frame result and the scores are recomputed by an independent pipeline. Non-trivial: a frame with hits and misses."),
    "P09": (600_000, 40_000_000, 8, "Pairs of positions (tiny to 1e9, equal, axis aligned) and thresholds at, one rounding unit below and above the distance. Non-trivial: threshold at the edge or pair not equal."),
    "P10": (24_000, 700_000, 8, "Pairs of boxes around the origin in every direction and heading; the score is recomputed from the corners. Non-trivial: the nearest side is well determined."),
    "P11": (25_000, 400_000, 8, "Pairs of oriented rectangles: overlapping, nested, touching, equal, disjoint, moved together; the overlap is recomputed by half-plane clipping. Non-trivial: partial overlap."),
    "P12": (25_000, 400_000, 8, "Pairs of upright boxes with all height offsets; the overlap volume is recomputed. Non-trivial: partial overlap in plane and height."),
    "P13": (700_000, 40_000_000, 8, "Boxes of all positions, sizes and orientations; corners recomputed from the quaternion. Non-trivial: rotated box."),
    "P14": (500_000, 25_000_000, 8, "Points, unit quaternions and sequences of motions; compared with matrix algebra and with undoing them. Non-trivial: a rotation that is not about one axis."),
    "P15": (700_000, 40_000_000, 8, "Unit quaternions: random, half and quarter turns, vertical, nearly vertical, negated. Non-trivial: all three angles differ from zero."),
    "P16": (200_000, 10_000_000, 8, "Frame lists (empty to many, unsorted, duplicated stamps) and query times at, near and beyond 75 ms to the nanosecond. Non-trivial: several candidate frames."),
    "P17": (6_000, 150_000, 8, "Consistent synthetic datasets, records shuffled, written and loaded (twice); every record, link and order compared with the files. Non-trivial: several scenes or samples with links."),
    "P18": (1_300, 30_000, 8, "Consistent datasets with one or several injected faults (missing, truncated or garbled tables, dropped or retyped fields, dangling or bad tokens, broken chains, wrong counts, removed records) and intact ones; loading has to fail exactly for the faulty ones. Non-trivial: a fault was injected."),
    "P19": (12_000, 250_000, 8, "Consistent datasets with random ego and sensor poses; ground truths recomputed from the files. Non-trivial: a frame with objects under a rotated pose."),
    "P20": (30_000, 1_000_000, 8, "Records of all 13 types and token texts; read, written, read again and compared. Non-trivial: every case."),
    "P21": (10_000, 400_000, 8, "Point clouds of any length and bit pattern, images and missing files, compared with the bytes written. Non-trivial: a cloud with points."),
    "P22": (20_000, 800_000, 8, "Valid files with bytes truncated, corrupted, spliced, nested or replaced by other types; everything that loads is walked through. Run as is and under AddressSanitizer. Non-trivial: every case."),
    "P23": (4_000, 80_000, 8, "Scenarios with random contents, renderings and faults, loaded in sequence; the configuration is compared with the scenario by reading it and by what it does. Non-trivial: every case."),
    "P24": (70_000, 4_000_000, 8, "All documented names in random letter case, near misses and random text. Non-trivial: every case."),
    "P25": (1_800, 30_000, 1, "Sequences of set-ups (directories, levels, repeated, impossible) and unique messages from one or several threads, also during set-ups; the files are checked afterwards. Non-trivial: messages on both sides of the level."),
    "P26": (220, 4_000, 3, "2 to 8 threads per case, now and then up to 40, run evaluations, loads, lookups, score reads and the like on shared and own data with random delays; every outcome is compared with that of the sequential run. Run as is and under ThreadSanitizer. Non-trivial: operations overlapped."),
    "P27": (14_000, 600_000, 8, "Histories and configurations (labels in any order, repeated); the printed score is parsed and compared with the values. Non-trivial: several labels."),
    "P28": (5_000, 100_000, 8, "Histories in which NaN, infinite, zero, negative, denormal and huge numbers replace values of objects of some labels; filtered, paired, classified in every mode, scored and printed; other labels are compared with the history without those objects. Non-trivial: some object has a hostile number."),
    "P29": (80_000, 2_000_000, 8, "Lists of up to 9 labels in any order, repeated or not, with values of five types; every label is looked up and compared with its first position; label agreement of random pairs. Non-trivial: at least two labels."),
    "P30": (8_000, 150_000, 8, "A dataset and a scenario on disk (paths plain, with dots or through symbolic links), loaded into a manager; frames are looked up with jitter and estimates added; frames, frame results and scores are compared with the contents of the files and the independent pipeline. Non-trivial: hits and misses."),
    "P31": (2_000, 40_000, 8, "Evaluations run alone, again, interleaved with variants of themselves, and from copies; frame results, scores and printed text are compared bit by bit. Non-trivial: results in some frame."),
    "P32": (3_500, 60_000, 8, "Whole and damaged sites (scenario, dataset, sensor files, result directory with foreign files), used from loading to the printed score; the tree of files is compared before and after. Non-trivial: the run got past loading."),
    "P33": (28, 700, 1, "Ten rounds of making, using and dropping a site, whole or damaged, in one process, also in threads that end; open files, threads and allocated bytes are compared after each round. Non-trivial: every case."),
    "P34": (120_000, 3_000_000, 8, "Pairs of objects that are equal, differ in single fields (also by one unit in the last place) or in all; compared, put into frames, printed and read back. Non-trivial: the objects differ."),
}

# property: (sanitizer, cases quick, cases thorough, workers)
SANITIZED = {
    "P22": ("address", 6_000, 150_000, 8),
    "P26": ("thread", 24, 500, 3),
}
# only in the thorough tier
SANITIZED_THOROUGH = {
    "P17": ("address", 0, 20_000, 8),
    "P21": ("address", 0, 60_000, 8),
    "P23": ("address", 0, 8_000, 8),
    "P30": ("address", 0, 8_000, 8),
}

TECHNIQUE = {
    "P22": "runtime monitoring of hostile loads, AddressSanitizer",
    "P26": "runtime monitoring of concurrent histories, ThreadSanitizer",
}
DEFAULT_TECHNIQUE = "runtime monitoring: reference-model oracle over recorded executions"

ASSUMPTIONS = [
    "Holds on the executions observed; says nothing about inputs that the workload does not produce.",
    "The oracle, the generators and the compiler are trusted.",
]

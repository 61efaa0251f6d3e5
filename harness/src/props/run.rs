//! Whole runs: hostile numbers, lookups by label, evaluation from files, repetition, effects on
//! the disk and on the resources of the process. P28 to P33.

use super::config::{self, Scenario, Wish};
use super::data::{self, nanos};
use super::eval::{describe, feed, judge_frame, judge_history, limited_history, manager, multiset, scores, show, snapshot, Snapshot};
use crate::ds::{self, quat4, text, vec3, Ds, DsParams, VERSION};
use crate::ensure;
use crate::gen::{self, brief, briefs, key, FrameIn, HistoryParams, Key, Settings};
use crate::obs::{Env, Obs, Verdict};
use crate::oracle::{add, qmul, qrot};
use crate::report::{close, Section};
use crate::rng::Rng;
use chrono::Duration;
use perception_eval::config::PerceptionEvaluationConfig;
use perception_eval::dataset::nuscenes::NuScenes;
use perception_eval::dataset::{load_dataset, FrameGroundTruth};
use perception_eval::filter::filter_objects;
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::frame_id::FrameID;
use perception_eval::label::{Label, LabelConverter};
use perception_eval::manager::PerceptionEvaluationManager;
use perception_eval::matching::MatchingMode;
use perception_eval::object::object3d::DynamicObject;
use perception_eval::result::frame::PerceptionFrameResult;
use perception_eval::result::object::{get_perception_results, PerceptionResult};
use perception_eval::threshold::{get_label_threshold, LabelThreshold};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::str::FromStr;

const MODES: [MatchingMode; 4] = [
    MatchingMode::CenterDistance,
    MatchingMode::PlaneDistance,
    MatchingMode::Iou2d,
    MatchingMode::Iou3d,
];

// ------------------------------------------------------------------------------------------ P28

const HOSTILE: [f64; 14] = [
    f64::NAN,
    -f64::NAN,
    f64::NAN,
    f64::INFINITY,
    f64::NEG_INFINITY,
    0.0,
    -0.0,
    -1.0,
    1e308,
    -1e308,
    1e160,
    f64::MIN_POSITIVE,
    5e-324,
    1e-200,
];

/// Overwrites numbers of the object with hostile ones.
fn poison(rng: &mut Rng, x: &mut DynamicObject) {
    fn some<const N: usize>(rng: &mut Rng, v: &mut [f64; N]) {
        match rng.below(4) {
            0 => {
                let h = *rng.pick(&HOSTILE);
                *v = [h; N];
            }
            1 => v.iter_mut().for_each(|c| *c = *rng.pick(&HOSTILE)),
            _ => {
                let i = rng.below(N);
                v[i] = *rng.pick(&HOSTILE);
            }
        }
    }
    for _ in 0..1 + rng.below(2) {
        match rng.below(7) {
            0 => some(rng, &mut x.position),
            // within the limits, but nowhere
            1 => x.position[2] = *rng.pick(&HOSTILE),
            2 | 3 => some(rng, &mut x.orientation),
            4 => some(rng, &mut x.size),
            5 => x.confidence = *rng.pick(&HOSTILE),
            _ => {
                let mut v = [0.0; 3];
                some(rng, &mut v);
                x.velocity = Some(v);
            }
        }
    }
}

/// Is a number that the score of the mode depends on not a number?
fn nowhere(x: &DynamicObject, mode: &MatchingMode) -> bool {
    let nan = |v: &[f64]| v.iter().any(|c| c.is_nan());
    match mode {
        MatchingMode::CenterDistance => nan(&x.position),
        MatchingMode::PlaneDistance | MatchingMode::Iou2d => {
            nan(&x.position[..2]) || nan(&x.orientation) || nan(&x.size[..2])
        }
        MatchingMode::Iou3d => nan(&x.position) || nan(&x.orientation) || nan(&x.size),
    }
}

/// Are the numbers of the box such as occur, but for zeros?
fn common(x: &DynamicObject) -> bool {
    x.size.iter().all(|s| *s == 0.0 || (1e-2..1e2).contains(s)) && x.position.iter().all(|c| c.abs() < 1e4)
        && (x.orientation.iter().map(|c| c * c).sum::<f64>() - 1.0).abs() < 1e-6
}

/// Has the box no extent that the overlap is a part of?
fn covers_nothing(x: &DynamicObject, mode: &MatchingMode) -> bool {
    match mode {
        MatchingMode::Iou2d => x.size[..2].contains(&0.0),
        MatchingMode::Iou3d => x.size.contains(&0.0),
        _ => false,
    }
}

fn result_key(r: &PerceptionResult) -> (Key, Option<Key>) {
    (key(&r.estimated_object), r.ground_truth_object.as_ref().map(key))
}

fn pairs_of_label<'r, I: Iterator<Item = &'r PerceptionResult>>(results: I, label: &Label) -> HashMap<(Key, Option<Key>), i64> {
    let mut found = HashMap::new();
    for r in results.filter(|r| r.estimated_object.label == *label) {
        *found.entry(result_key(r)).or_insert(0) += 1;
    }
    found
}

/// Checks that all estimates are reported once, and ground truths at most once.
fn accounted(results: &[PerceptionResult], est: &[DynamicObject], gt: &[DynamicObject]) -> Verdict {
    let context = || format!("est={} gt={}", briefs(est), briefs(gt));
    ensure!(
        multiset(results.iter().map(|r| &r.estimated_object)) == multiset(est.iter()),
        "not every estimate is in exactly one of {} results: {}", results.len(), context()
    );
    let mut left = multiset(gt.iter());
    for r in results {
        if let Some(g) = &r.ground_truth_object {
            ensure!(g.label == r.estimated_object.label, "{} is paired with {}", brief(&r.estimated_object), brief(g));
            let n = left.entry(key(g)).or_insert(0);
            *n -= 1;
            ensure!(*n >= 0, "the ground truth {} is used too often: {}", brief(g), context());
        }
    }
    // none left over on both sides
    for r in results.iter().filter(|r| r.ground_truth_object.is_none()) {
        let label = &r.estimated_object.label;
        ensure!(
            !gt.iter().any(|g| g.label == *label && left[&key(g)] > 0),
            "{} is unpaired although a ground truth of its label is left: {}", brief(&r.estimated_object), context()
        );
    }
    Ok(())
}

/// Checks the split into hits, false alarms and misses.
fn split(frame: &PerceptionFrameResult, targets: &[Label], mode: &MatchingMode, o: &mut Obs) -> Verdict {
    let context = || {
        format!(
            "{:?}: results {:?}, TP {:?}, FN {}",
            mode,
            frame.results().iter().map(|r| (brief(&r.estimated_object), r.ground_truth_object.as_ref().map(brief))).collect::<Vec<_>>(),
            frame.tp_results().iter().map(|r| brief(&r.estimated_object)).collect::<Vec<_>>(),
            briefs(frame.fn_objects())
        )
    };
    let mut parts: HashMap<_, i64> = HashMap::new();
    frame.results().iter().filter(|r| targets.contains(&r.estimated_object.label)).for_each(|r| *parts.entry(result_key(r)).or_insert(0) += 1);
    for r in frame.tp_results().iter().chain(frame.fp_results()) {
        let n = parts.entry(result_key(r)).or_insert(0);
        *n -= 1;
        ensure!(*n >= 0, "{} is reported too often: {}", brief(&r.estimated_object), context());
    }
    ensure!(parts.values().all(|n| *n == 0), "a result is neither hit nor false alarm: {}", context());
    for r in frame.tp_results() {
        let g = match &r.ground_truth_object {
            Some(g) => g,
            None => return Err(format!("a hit has no ground truth: {}", context())),
        };
        ensure!(
            !nowhere(&r.estimated_object, mode) && !nowhere(g, mode),
            "{} is a hit of {} although its score is not a number: {}", brief(&r.estimated_object), brief(g), context()
        );
    }
    for r in frame.fp_results() {
        if r.ground_truth_object.as_ref().map_or(false, |g| nowhere(&r.estimated_object, mode) || nowhere(g, mode)) {
            o.hit("score_that_is_no_number");
        }
    }
    let mut missed = multiset(frame.frame_ground_truth().objects.iter());
    for r in frame.tp_results() {
        *missed.entry(key(r.ground_truth_object.as_ref().unwrap())).or_insert(0) -= 1;
    }
    missed.retain(|_, n| *n != 0);
    ensure!(missed == multiset(frame.fn_objects().iter()), "the misses are wrong: {}", context());
    o.add("hits", frame.tp_results().len() as u64);
    o.add("false_alarms", frame.fp_results().len() as u64);
    o.add("misses", frame.fn_objects().len() as u64);
    Ok(())
}

pub fn p28(rng: &mut Rng, _env: &Env, o: &mut Obs) -> Verdict {
    let (mut s, mut frames) = if rng.chance(0.3) {
        limited_history(rng)
    } else {
        let n = 1 + rng.below(4);
        let s = Settings::wide(rng, n);
        let mut p = HistoryParams::draw(rng);
        p.frames = p.frames.clamp(1, 6);
        p.per_label = p.per_label.min(8);
        let frames = gen::history(rng, &s, &p);
        (s, frames)
    };
    if rng.chance(0.1) {
        s.max_x = f64::INFINITY;
        s.max_y = f64::INFINITY;
    }
    let mut clean = frames.clone();

    // some labels get hostile numbers
    let sick: Vec<Label> = gen::LABELS.iter().filter(|_| rng.chance(0.5)).cloned().collect();
    let mut poisoned = 0u64;
    let (p_est, p_gt) = (*rng.pick(&[0.1, 0.4, 1.0]), *rng.pick(&[0.0, 0.1, 0.5]));
    for f in &mut frames {
        for (list, p) in [(&mut f.est, p_est), (&mut f.gt.objects, p_gt)] {
            for x in list.iter_mut().filter(|x| sick.contains(&x.label)) {
                if rng.chance(p) {
                    poison(rng, x);
                    poisoned += 1;
                }
            }
        }
        if rng.chance(0.15) {
            // boxes that cover nothing
            let side = rng.below(4);
            for x in f.est.iter_mut().chain(&mut f.gt.objects).filter(|x| sick.contains(&x.label)) {
                for i in 0..3 {
                    if side == 3 || side == i {
                        x.size[i] = 0.0;
                    }
                }
                poisoned += 1;
            }
        }
    }
    if rng.chance(0.2) {
        // ground truths that differ from another in nothing but a number that is none
        for f in &mut frames {
            let twins: Vec<DynamicObject> = f.gt.objects.iter().filter(|x| sick.contains(&x.label) && rng.chance(0.5)).cloned().collect();
            for mut x in twins {
                match rng.below(3) {
                    0 => x.velocity = Some([f64::NAN; 3]),
                    1 => x.velocity.get_or_insert([1.0, 0.0, 0.0])[rng.below(3)] = f64::NAN,
                    _ => x.size[rng.below(3)] = f64::NAN,
                }
                let at = rng.below(f.gt.objects.len() + 1);
                f.gt.objects.insert(at, x);
                poisoned += 1;
                o.hit("twins_that_differ_by_nan");
            }
        }
    }
    o.add("hostile_objects", poisoned);
    for f in &mut clean {
        f.est.retain(|x| !sick.contains(&x.label));
        f.gt.objects.retain(|x| !sick.contains(&x.label));
    }

    frames.iter().for_each(|f| o.census.frame(&f.est, &f.gt.objects));
    let config = s.config()?;
    let mut m = manager(&config);
    feed(&mut m, &frames)?;
    let mut reference = manager(&config);
    feed(&mut reference, &clean)?;

    for (i, f) in frames.iter().enumerate() {
        let est: Vec<DynamicObject> = f.est.iter().filter(|x| s.keeps(x, false)).cloned().collect();
        let gt: Vec<DynamicObject> = f.gt.objects.iter().filter(|x| s.keeps(x, true)).cloned().collect();
        for (all, want, is_gt) in [(&f.est, &est, false), (&f.gt.objects, &gt, true)] {
            let kept = filter_objects(all, is_gt, &config.filter_params);
            ensure!(
                kept.len() == want.len() && kept.iter().zip(want).all(|(a, b)| gen::same(a, b)),
                "filtering keeps {} instead of {} with {:?}", briefs(&kept), briefs(want), s
            );
        }
        let frame = &m.frame_results[i];
        accounted(frame.results(), &est, &gt)?;
        split(frame, &s.targets, &MatchingMode::PlaneDistance, o)?;
        let healthy = &reference.frame_results[i];
        for label in s.targets.iter().filter(|l| !sick.contains(l)) {
            for (a, b) in [(frame.results(), healthy.results()), (frame.tp_results(), healthy.tp_results()), (frame.fp_results(), healthy.fp_results())] {
                ensure!(
                    pairs_of_label(a.iter(), label) == pairs_of_label(b.iter(), label),
                    "hostile numbers of {:?} change the results of {}: {} and {}", sick, label, briefs(&f.est), briefs(&f.gt.objects)
                );
            }
            let misses = |f: &PerceptionFrameResult| multiset(f.fn_objects().iter().filter(|x| x.label == *label));
            ensure!(misses(frame) == misses(healthy), "hostile numbers of {:?} change the misses of {}", sick, label);
            o.hit("undisturbed_label");
        }
        // every mode, unfiltered
        let results = get_perception_results(&f.est, &f.gt.objects);
        accounted(&results, &f.est, &f.gt.objects)?;
        let mode = rng.pick(&MODES).clone();
        let threshold = *rng.pick(&[0.0, 0.3, 0.5, 1.0, 3.0]);
        let frame = PerceptionFrameResult::new(results, f.gt.clone(), &s.targets, mode.clone(), &vec![threshold; s.targets.len()])
            .map_err(|e| format!("PerceptionFrameResult::new fails: {:?}", e))?;
        split(&frame, &s.targets, &mode, o)?;
        for r in frame.results() {
            for mode in &MODES {
                for t in [0.0, threshold] {
                    let hit = r.is_result_correct(mode, &t).map_err(|e| format!("is_result_correct fails: {:?}", e))?;
                    let lost = r.ground_truth_object.as_ref().map_or(true, |g| nowhere(&r.estimated_object, mode) || nowhere(g, mode));
                    ensure!(!(hit && lost), "{:?} of {} and {:?} beats {}", mode, brief(&r.estimated_object), r.ground_truth_object.as_ref().map(brief), t);
                    let flat = r.ground_truth_object.as_ref().map_or(false, |g| common(&r.estimated_object) && common(g) && (covers_nothing(&r.estimated_object, mode) || covers_nothing(g, mode)));
                    // (rounding may leave a sliver)
                    ensure!(!(hit && flat && t > 0.0), "{:?} of {} and {:?} beats {}, though one covers nothing", mode, brief(&r.estimated_object), r.ground_truth_object.as_ref().map(brief), t);
                    if flat {
                        o.hit("overlap_with_nothing");
                    }
                    o.hit("pair_judged");
                }
            }
        }
        // what users call on objects
        for x in f.est.iter().chain(&f.gt.objects) {
            let _ = (x.heading(), x.euler(), x.footprint(), x.area(), x.volume(), x.distance(), x.distance_bev(), x.rotation_matrix());
            let _ = format!("{} {} {:?}", x, x.state(), x);
        }
    }

    let score = m.get_metrics_score().map_err(|e| format!("get_metrics_score fails: {}", e))?;
    ensure!(!format!("{}", score).is_empty(), "nothing is printed");
    let (got, healthy): (Vec<Section>, Vec<Section>) = (scores(&m)?, scores(&reference)?);
    for (a, b) in got.iter().zip(&healthy) {
        for (i, label) in s.targets.iter().enumerate() {
            let results = m.frame_results.iter().flat_map(|f| f.results()).filter(|r| r.estimated_object.label == *label).count();
            let gts = m.frame_results.iter().flat_map(|f| &f.frame_ground_truth().objects).filter(|g| g.label == *label).count();
            for v in [a.ap[i], a.aph[i]] {
                ensure!(
                    if results + gts == 0 { v.is_nan() } else { (-a.tol..=1.0 + a.tol).contains(&v) },
                    "{} {} is {} with {} results and {} ground truths: {:?}", a.mode, label, v, results, gts, frames
                );
                o.hit("score_in_range");
            }
            if !sick.contains(label) {
                ensure!(
                    close(a.ap[i], b.ap[i], a.tol) && close(a.aph[i], b.aph[i], a.tol),
                    "hostile numbers of {:?} change the scores of {} from {} and {} to {} and {}: {:?}",
                    sick, label, b.ap[i], b.aph[i], a.ap[i], a.aph[i], frames
                );
                o.hit("undisturbed_score");
            }
        }
    }
    o.nontrivial = poisoned > 0;
    o.shape((poisoned, frames.len(), sick.len()));
    o.sample = Some(json!({"hostile": poisoned, "labels": format!("{:?}", sick), "frames": frames.len()}));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P29

/// Compares lookups of values of a type by label with the position of the label in the list.
fn look_up<T: Copy>(label: &Label, targets: &Vec<Label>, values: &[T], same: fn(&T, &T) -> bool, o: &mut Obs) -> Verdict {
    let want = targets.iter().position(|l| l == label);
    for (how, got) in [
        ("get_label_threshold", get_label_threshold(label, targets, values)),
        ("LabelThreshold", LabelThreshold::new(label, targets).get_threshold(values)),
    ] {
        match (want, got) {
            (None, None) => o.hit("unlisted_label"),
            (Some(i), Some(v)) => {
                ensure!(
                    same(&v, &values[i]),
                    "{} of {} in {:?} is not value {} but value(s) {:?}",
                    how, label, targets, i, (0..values.len()).filter(|j| same(&v, &values[*j])).collect::<Vec<_>>()
                );
                o.hit(if targets.iter().filter(|l| *l == label).count() > 1 { "repeated_label" } else { "listed_label" });
            }
            (want, got) => return Err(format!("{} of {} in {:?} finds a value: {}, but it is at {:?}", how, label, targets, got.is_some(), want)),
        }
    }
    Ok(())
}

pub fn p29(rng: &mut Rng, _env: &Env, o: &mut Obs) -> Verdict {
    let n = if rng.chance(0.1) { rng.below(300) } else { rng.below(10) };
    let mut targets: Vec<Label> = (0..n).map(|_| rng.pick(&gen::LABELS).clone()).collect();
    if rng.chance(0.3) {
        // mostly repetitions, others come late
        let often = rng.pick(&gen::LABELS).clone();
        targets.iter_mut().for_each(|l| {
            if rng.chance(0.95) {
                *l = often.clone()
            }
        });
    }
    // more values than labels are no harm
    let m = n + if rng.chance(0.2) { rng.below(4) } else { 0 };
    let floats: Vec<f64> = (0..m).map(|i| if rng.chance(0.05) { f64::NAN } else { rng.range(-10.0, 10.0) + 100.0 * i as f64 }).collect();
    let counts: Vec<usize> = (0..m).map(|i| 10 * i + rng.below(10)).collect();
    let pairs: Vec<(i32, char)> = (0..m).map(|i| (i as i32, *rng.pick(&['a', 'b']))).collect();
    let words: Vec<String> = (0..m).map(|i| format!("w{}", i)).collect();
    let texts: Vec<&str> = words.iter().map(|w| w.as_str()).collect();
    let switches: Vec<Option<bool>> = (0..m).map(|_| *rng.pick(&[None, Some(true), Some(false)])).collect();
    for label in gen::LABELS.iter() {
        look_up(label, &targets, &floats, |a, b| a.to_bits() == b.to_bits(), o)?;
        look_up(label, &targets, &counts, |a, b| a == b, o)?;
        look_up(label, &targets, &pairs, |a, b| a == b, o)?;
        look_up(label, &targets, &texts, |a, b| a == b, o)?;
        look_up(label, &targets, &switches, |a, b| a == b, o)?;
        // labels of a pair
        let est = gen::object(rng, label.clone());
        let other = rng.pick(&gen::LABELS).clone();
        let gt = match rng.below(3) {
            0 => None,
            1 => Some(gen::object(rng, other)),
            _ => {
                let mut g = gen::sibling(rng, &est);
                g.label = if rng.chance(0.5) { label.clone() } else { other };
                Some(g)
            }
        };
        let want = gt.as_ref().map_or(false, |g| g.label == est.label);
        let r = PerceptionResult::new(est, gt);
        ensure!(
            r.is_label_correct() == want,
            "the label of {} with {:?} is correct: {}", brief(&r.estimated_object), r.ground_truth_object.as_ref().map(brief), r.is_label_correct()
        );
        o.hit(if want { "label_correct" } else { "label_wrong" });
    }
    o.nontrivial = n > 1;
    o.shape(format!("{:?} {}", targets, m));
    o.sample = Some(json!({"labels": format!("{:?}", targets), "values": format!("{:?}", floats)}));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P30

/// A dataset and a scenario on disk.
struct Site {
    ds: Ds,
    data: PathBuf,
    file: PathBuf,
    result: PathBuf,
    scenario: Scenario,
}

/// Moves the annotations into the surroundings of the vehicle.
fn gather(rng: &mut Rng, ds: &mut Ds) {
    let old = ds.clone();
    let area = *rng.pick(&[10.0, 60.0]);
    for a in ds.tables.get_mut("sample_annotation").unwrap() {
        let sample = old.find("sample", text(a, "sample_token"));
        if let Some(pose) = ds::lidar_pose(&old, sample) {
            let q = quat4(&pose["rotation"]);
            let here = [rng.range(-area, area), rng.range(-area, area), rng.range(-2.0, 2.0)];
            a["translation"] = json!(add(&qrot(&q, &here), &vec3(&pose["translation"])));
            if rng.chance(0.8) {
                a["rotation"] = json!(qmul(&q, &gen::upright(rng)));
            }
        }
    }
}

/// The path relative to the working directory.
pub fn from_here(path: &str) -> String {
    let here = std::env::current_dir().and_then(|d| d.canonicalize()).expect("harness: working directory");
    format!("{}{}", "../".repeat(here.components().count() - 1), path.trim_start_matches('/'))
}

/// The path relative to the working directory, without leaving it if possible.
pub fn below_here(path: &str) -> String {
    let here = std::env::current_dir().and_then(|d| d.canonicalize()).expect("harness: working directory");
    let full = Path::new(path).canonicalize().expect("harness: directory");
    match full.strip_prefix(&here) {
        Ok(below) => below.to_str().unwrap().to_string(),
        Err(_) => path.to_string(),
    }
}

fn site(rng: &mut Rng, env: &Env, name: &str) -> Site {
    let root = env.dir(name);
    let mut params = DsParams::draw(rng, env.thorough);
    params.scenes = 1 + rng.below(2);
    params.instances = 3 + rng.below(6);
    if rng.chance(0.06) {
        // crowded streets
        params.instances = 20 + rng.below(80);
    } else if rng.chance(0.03) {
        params = DsParams::rich(rng);
    }
    let mut ds = ds::consistent(rng, &params);
    gather(rng, &mut ds);
    let data = root.join(*rng.pick(&[
        "data", "a set/of data", "データ", "v1.2-x_y", "a%20b", "~", "$HOME", "c:d#e", "annotation", "samples", "maps/1", "data.yaml", " blank ", "back\\slash", "x?*",
    ]));
    std::fs::create_dir_all(&data).expect("harness: directory");
    ds.write(&data, rng, true);
    // the many ways to name a directory
    let plain = data.to_str().unwrap().to_string();
    let path = match rng.below(12) {
        0 => format!("{}/", plain),
        6 => from_here(&plain),
        7 => format!("./{}/.", from_here(&plain)),
        8 => {
            // below the working directory, with another dataset there as seen from the scenario
            let below = below_here(&plain);
            if !below.starts_with('/') {
                let other = root.join(&below);
                std::fs::create_dir_all(&other).expect("harness: directory");
                ds::consistent(rng, &params).write(&other, rng, true);
            }
            below
        }
        1 => format!("{}/.", plain),
        2 => format!("{}/./{}", root.display(), data.strip_prefix(&root).unwrap().display()),
        3 => {
            let link = root.join("link");
            std::os::unix::fs::symlink(&data, &link).expect("harness: link");
            link.to_str().unwrap().to_string()
        }
        4 => format!("{}/../{}", root.display(), data.strip_prefix(root.parent().unwrap()).unwrap().display()),
        5 => {
            // the parent of the directory that a link leads to, which is not that of the link
            let deep = data.join("maps/deep");
            std::fs::create_dir_all(&deep).expect("harness: directory");
            let link = root.join("shortcut");
            std::os::unix::fs::symlink(&deep, &link).expect("harness: link");
            format!("{}/../../", link.display())
        }
        _ => plain,
    };
    let ids: Vec<String> = ds.table("instance").iter().filter(|_| rng.chance(0.7)).map(|i| text(i, "token").to_string()).collect();
    let wish = Wish {
        path,
        version: VERSION.into(),
        max_x: *rng.pick(&[20.0, 45.5, 100.0, 1e6]),
        max_y: *rng.pick(&[20.0, 45.5, 100.0, 1e6]),
        min_points: *rng.pick(&[None, Some(0), Some(1), Some(200)]),
        uuids: if rng.chance(0.2) && !ids.is_empty() { Some(ids) } else { None },
        center: *rng.pick(&[0.5, 1.0, 2.75]),
        plane: *rng.pick(&[0.5, 1.25, 2.0, 3.0]),
    };
    let scenario = config::scenario_with(rng, Some(&wish));
    let file = root.join("scenario.yaml");
    std::fs::write(&file, config::render(rng, &scenario.tree)).expect("harness: scenario");
    let result = root.join(*rng.pick(&[
        "result", "result", "results/1", "results/run 7", "work_dir/20240101_000000", "log/log", "visualize", "out%20put", ".hidden/x", "latest", "結果", "deep/er/and/deep/er",
        "~r", "$HOME r", "log.d", "r.yaml",
    ]));
    // those before it
    if rng.chance(0.3) {
        std::fs::create_dir_all(result.with_file_name(*rng.pick(&["0", "result_old", "previous run"])).join("log")).expect("harness: directory");
    }
    Site { ds, data, file, result, scenario }
}

/// The frame at a time that is near to a frame, as looked up: checked against the rule.
fn look_up_frame(rng: &mut Rng, m: &PerceptionEvaluationManager, at: &chrono::NaiveDateTime, o: &mut Obs) -> Result<Option<FrameGroundTruth>, String> {
    const LIMIT: i128 = 75_000_000;
    let shift = match rng.below(6) {
        0 => 0,
        1 => rng.int(-100_000_000, 100_000_000),
        2 => rng.int(-1, 1) * 75_000_000,
        _ => rng.int(-74_999_999, 74_999_999),
    };
    let at = *at + Duration::nanoseconds(shift);
    let away = |f: &FrameGroundTruth| (nanos(&f.timestamp) - nanos(&at)).abs();
    let best = m.frame_ground_truths.iter().map(away).min().unwrap_or(LIMIT);
    let got = m.get_frame_ground_truth(&at);
    match &got {
        Some(f) => ensure!(
            best < LIMIT && away(f) == best,
            "lookup of {} gives the frame at {}, the nearest is {} ns away", at, f.timestamp, best
        ),
        None => ensure!(best >= LIMIT, "lookup of {} gives nothing, the nearest frame is {} ns away", at, best),
    }
    o.hit(if got.is_some() { "frame_found" } else { "no_frame_found" });
    Ok(got)
}

/// What a detector might give for the frame.
fn detections(rng: &mut Rng, s: &Settings, gt: &FrameGroundTruth) -> Vec<DynamicObject> {
    let reach = s.center.max(s.plane);
    let mut est: Vec<DynamicObject> = Vec::new();
    let kind = *rng.pick(&[gen::Confidence::Uniform, gen::Confidence::Uniform, gen::Confidence::Close, gen::Confidence::Wild, gen::Confidence::Special]);
    for g in &gt.objects {
        for _ in 0..*rng.pick(&[0, 1, 1, 1, 1, 2]) {
            let mut e = gen::estimate_of(rng, g, reach, false);
            e.confidence = gen::confidence(rng, kind);
            est.push(e);
        }
    }
    for _ in 0..rng.below(3) {
        let label = rng.pick(&s.targets).clone();
        let mut e = gen::object(rng, label);
        e.position = [rng.range(-30.0, 30.0), rng.range(-30.0, 30.0), 0.0];
        e.confidence = gen::confidence(rng, kind);
        est.push(e);
    }
    if rng.chance(0.05) && !est.is_empty() {
        // one all over again, or with the id of another
        let mut again = rng.pick(&est).clone();
        if rng.chance(0.5) {
            again.position[0] += 7.0;
        }
        est.push(again);
    }
    rng.shuffle(&mut est);
    est
}

pub fn p30(rng: &mut Rng, env: &Env, o: &mut Obs) -> Verdict {
    let site = site(rng, env, "p30");
    let s = &site.scenario.settings;
    let raw = rng.chance(0.5);
    let file = match rng.chance(0.15) {
        true => from_here(site.file.to_str().unwrap()).into(),
        false => site.file.clone(),
    };
    o.hit(if !site.scenario.path.starts_with('/') { "relative_path" } else { "absolute_path" });
    let c = config::load(&file, &site.result, raw).map_err(|e| format!("a valid scenario is rejected: {}", e))?;
    let mut m = PerceptionEvaluationManager::from(&c)
        .map_err(|e| format!("no manager for the dataset at {:?}: {}", site.scenario.path, e))?;
    ensure!(m.frame_results.is_empty(), "a new manager has frame results");
    data::judge_frames(&site.ds, &m.frame_ground_truths, &perception_eval::frame_id::FrameID::BaseLink, o)?;
    o.nontrivial = false;

    let mut frames: Vec<FrameIn> = Vec::new();
    let mut order: Vec<usize> = (0..m.frame_ground_truths.len()).collect();
    if rng.chance(0.2) {
        rng.shuffle(&mut order);
    }
    for i in order {
        let at = m.frame_ground_truths[i].timestamp;
        let gt = match look_up_frame(rng, &m, &at, o)? {
            Some(gt) => gt,
            None => continue,
        };
        let est = if rng.chance(0.9) { detections(rng, s, &gt) } else { Vec::new() };
        m.add_frame_result(&est, &gt).map_err(|e| format!("add_frame_result fails: {:?}", e))?;
        frames.push(FrameIn { est, gt });
        ensure!(m.frame_results.len() == frames.len(), "{} frame results after {} frames", m.frame_results.len(), frames.len());
        judge_frame(s, &frames[frames.len() - 1], &m.frame_results[frames.len() - 1], o)?;
        if rng.chance(0.2) {
            scores(&m)?;
        }
    }
    for (i, f) in frames.iter().enumerate() {
        judge_frame(s, f, &m.frame_results[i], &mut Obs::default()).map_err(|e| format!("in the end: {}", e))?;
    }
    data::judge_frames(&site.ds, &m.frame_ground_truths, &perception_eval::frame_id::FrameID::BaseLink, &mut Obs::default()).map_err(|e| format!("after the evaluation: {}", e))?;
    let sections = scores(&m)?;
    for (sec, threshold) in sections.iter().zip([s.center, s.plane]) {
        let names: Vec<String> = s.targets.iter().map(|l| l.to_string()).collect();
        ensure!(sec.labels == names, "the labels of the scenario are {:?}, printed are {:?}", names, sec.labels);
        ensure!(sec.thresholds.iter().all(|x| (x - threshold).abs() <= 0.00051), "thresholds {:?} instead of {}", sec.thresholds, threshold);
    }
    o.nontrivial = false;
    judge_history(s, &frames, &sections, o)?;
    ensure!(c.log_dir.join("output.log").is_file(), "no log file in {:?}", c.log_dir);
    o.add("frames", frames.len() as u64);
    o.sample = Some(json!({"scenario": format!("{:?}", s).chars().take(300).collect::<String>(), "frames": frames.len(), "records": site.ds.len(), "scores": show(&sections)}));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P31

/// What an evaluation gives: frame results in order, scores, the printed score.
type Outcome = (Vec<Snapshot>, Vec<Section>, String);

fn outcome(m: &PerceptionEvaluationManager) -> Result<Outcome, String> {
    let score = m.get_metrics_score().map_err(|e| format!("get_metrics_score fails: {}", e))?;
    Ok((m.frame_results.iter().map(snapshot).collect(), crate::report::observe(&score)?, format!("{}", score)))
}

fn evaluate(c: &PerceptionEvaluationConfig, frames: &[FrameIn]) -> Result<Outcome, String> {
    let mut m = manager(c);
    feed(&mut m, frames)?;
    outcome(&m)
}

fn differs(a: &Outcome, b: &Outcome) -> Option<String> {
    if a.0.len() != b.0.len() {
        return Some(format!("{} and {} frames", a.0.len(), b.0.len()));
    }
    if let Some(i) = (0..a.0.len()).find(|i| a.0[*i] != b.0[*i]) {
        let what = |x: &Snapshot, y: &Snapshot| {
            if x.0 != y.0 {
                "results"
            } else if x.3 != y.3 {
                "true positives"
            } else if x.4 != y.4 {
                "false positives"
            } else if x.5 != y.5 {
                "misses"
            } else {
                "ground truths"
            }
        };
        return Some(format!("the {} of frame {} (or their order) differ: {:?} and {:?}", what(&a.0[i], &b.0[i]), i, a.0[i], b.0[i]));
    }
    let bits = |v: &[f64]| v.iter().map(|x| if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() }).collect::<Vec<_>>();
    let equal = a.1.len() == b.1.len() && a.1.iter().zip(&b.1).all(|(x, y)| {
        x.mode == y.mode && x.labels == y.labels && bits(&x.ap) == bits(&y.ap) && bits(&x.aph) == bits(&y.aph)
    });
    if !equal {
        return Some(format!("the scores differ: {} and {}", show(&a.1), show(&b.1)));
    }
    if a.2 != b.2 {
        return Some(format!("the printed scores differ:\n{}\n{}", a.2, b.2));
    }
    None
}

/// The same frames with some things changed that must matter.
fn altered(rng: &mut Rng, frames: &[FrameIn]) -> Vec<FrameIn> {
    let mut out = frames.to_vec();
    for f in &mut out {
        for x in f.est.iter_mut().chain(f.gt.objects.iter_mut()) {
            match rng.below(6) {
                0 => x.position[0] += rng.range(-2.0, 2.0),
                1 => x.confidence = rng.f(),
                2 => x.size = x.size.map(|v| v * 1.5),
                3 => x.orientation = gen::upright(rng),
                _ => {}
            }
        }
        if rng.chance(0.3) {
            f.est.reverse();
        }
        if rng.chance(0.2) {
            f.gt.objects.pop();
        }
    }
    out
}

/// Evaluations from files at the same place whose contents change in between.
fn files_replaced(rng: &mut Rng, env: &Env, o: &mut Obs) -> Verdict {
    let mut kept = Vec::new();
    for round in 0..3 {
        let mut site = site(rng, env, "p31");
        if round > 0 {
            // the place of the one before
            let (data, file): &(PathBuf, PathBuf) = &kept[0];
            if *data != site.data {
                std::fs::create_dir_all(data.parent().unwrap()).expect("harness: directory");
                std::fs::rename(&site.data, data).expect("harness: rename");
            }
            for link in ["link", "shortcut"] {
                let _ = std::fs::remove_file(file.parent().unwrap().join(link));
            }
            let path = data.to_str().unwrap();
            let moved = config::render(rng, &site.scenario.tree.renamed(&site.scenario.path, path));
            std::fs::write(file, moved).expect("harness: scenario");
            site.data = data.clone();
        } else {
            kept.push((site.data.clone(), site.file.clone()));
        }
        for _ in 0..2 {
            let c = config::load(&site.file, &site.result, false).map_err(|e| format!("a valid scenario is rejected: {}", e))?;
            let mut m = PerceptionEvaluationManager::from(&c).map_err(|e| format!("no manager for a consistent dataset: {}", e))?;
            data::judge_frames(&site.ds, &m.frame_ground_truths, &perception_eval::frame_id::FrameID::BaseLink, &mut Obs::default())
                .map_err(|e| format!("in round {} of replacing the files at {:?}: {}", round, site.data, e))?;
            let s = &site.scenario.settings;
            let mut frames = Vec::new();
            for gt in m.frame_ground_truths.clone() {
                let est = detections(rng, s, &gt);
                m.add_frame_result(&est, &gt).map_err(|e| format!("add_frame_result fails: {:?}", e))?;
                frames.push(FrameIn { est, gt });
                let i = frames.len() - 1;
                judge_frame(s, &frames[i], &m.frame_results[i], &mut Obs::default())
                    .map_err(|e| format!("in round {} of replacing the scenario {:?}: {}", round, site.file, e))?;
            }
            o.hit("files_replaced");
        }
    }
    Ok(())
}

/// Evaluations of the same frame under settings that differ by very little, in turns.
fn nearly_same_settings(rng: &mut Rng, o: &mut Obs) -> Verdict {
    let mut s = Settings::wide(rng, 4);
    s.min_points = None;
    s.uuids = None;
    (s.max_x, s.max_y) = (100.0, 100.0);
    let (d, limit) = (rng.range(0.5, 5.0), rng.range(20.0, 60.0));
    let label = s.targets[0].clone();
    let mut gt = gen::object(rng, label);
    gt.position = [d, 0.0, 0.0];
    gt.frame_id = FrameID::BaseLink;
    let mut est = gt.clone();
    est.position = [0.0; 3];
    let mut far = gt.clone();
    far.position = [limit, limit, 0.0];
    let frame = FrameIn { est: vec![est], gt: FrameGroundTruth { timestamp: gt.timestamp, objects: vec![gt, far] } };
    let mut kinds: Vec<(bool, bool, bool)> = (0..8).map(|k| (k & 1 > 0, k & 2 > 0, k & 4 > 0)).collect();
    rng.shuffle(&mut kinds);
    let by = *rng.pick(&[1e-5, 1e-8, 4e-9]);
    for (wide, far_x, far_y) in kinds {
        let put = |above: bool, v: f64| if above { v * (1.0 + by) } else { v * (1.0 - by) };
        s.center = put(wide, d);
        (s.max_x, s.max_y) = (put(far_x, limit), put(far_y, limit));
        let sections = evaluate(&s.config()?, std::slice::from_ref(&frame))?.1;
        let total = 1 + usize::from(far_x && far_y);
        let want = if wide { 1.0 / total as f64 } else { 0.0 };
        let got = sections[0].ap[0];
        ensure!(
            close(got, want, 0.00051),
            "an estimate {} away from one of {} ground truths is judged with {} under {:?}, after other settings", d, total, got, s
        );
        o.hit("near_settings_compared");
    }
    Ok(())
}

pub fn p31(rng: &mut Rng, env: &Env, o: &mut Obs) -> Verdict {
    if rng.chance(0.1) {
        files_replaced(rng, env, o)?;
    }
    if rng.chance(0.2) {
        nearly_same_settings(rng, o)?;
    }
    let (s, frames) = if rng.chance(0.5) {
        limited_history(rng)
    } else {
        let n = 1 + rng.below(6);
        let s = Settings::wide(rng, n);
        let mut p = HistoryParams::draw(rng);
        p.frames = p.frames.min(20);
        p.per_label = p.per_label.min(12);
        (s.clone(), gen::history(rng, &s, &p))
    };
    let c = s.config()?;
    let first = evaluate(&c, &frames)?;

    // other evaluations in between: other settings, other frames at the same times
    let other = altered(rng, &frames);
    let mut s2 = s.clone();
    (s2.center, s2.plane) = (s.plane * 0.5, s.center * 2.0);
    if rng.chance(0.5) {
        s2.targets.reverse();
        s2.names.reverse();
    }
    let c2 = s2.config()?;
    let between = evaluate(&c2, &other)?;
    if let Some(d) = differs(&first, &evaluate(&c, &frames)?) {
        return Err(format!("the same evaluation gives something else the second time: {}; {}", d, describe(&s, &frames)));
    }
    o.hit("evaluated_again");
    if let Some(d) = differs(&between, &evaluate(&s2.config()?, &other)?) {
        return Err(format!("the same evaluation gives something else the second time: {}; {}", d, describe(&s2, &other)));
    }

    // two managers of one configuration fed in turns, and a clone that goes its own way
    let (mut a, mut b) = (manager(&c), manager(&c));
    let reference = evaluate(&c, &other)?;
    let split = rng.below(frames.len() + 1);
    let mut copy = None;
    for (i, (f, g)) in frames.iter().zip(&other).enumerate() {
        if i == split {
            copy = Some(a.clone());
        }
        feed(&mut a, std::slice::from_ref(f))?;
        feed(&mut b, std::slice::from_ref(g))?;
        if let Some(m) = &mut copy {
            feed(m, std::slice::from_ref(g))?;
        }
        if rng.chance(0.1) {
            scores(&b)?;
            scores(&a)?;
        }
    }
    let mut copy = copy.unwrap_or_else(|| a.clone());
    for (m, want, what) in [(&a, &first, "first"), (&b, &reference, "second")] {
        if let Some(d) = differs(&outcome(m)?, want) {
            return Err(format!("fed in turns with another, the {} manager gives something else: {}; {}", what, d, describe(&s, &frames)));
        }
        o.hit("fed_in_turns");
    }
    let mut mixed = frames[..split].to_vec();
    mixed.extend_from_slice(&other[split..]);
    if let Some(d) = differs(&outcome(&copy)?, &evaluate(&c, &mixed)?) {
        return Err(format!("a copy taken after {} frames gives something else: {}; {}", split, d, describe(&s, &mixed)));
    }
    copy.frame_results.clear();
    if let Some(d) = differs(&outcome(&a)?, &first) {
        return Err(format!("clearing a copy changes the original: {}; {}", d, describe(&s, &frames)));
    }
    feed(&mut copy, &frames)?;
    if let Some(d) = differs(&outcome(&copy)?, &first) {
        return Err(format!("a cleared manager gives something else: {}; {}", d, describe(&s, &frames)));
    }
    o.hit("copy_on_its_own");
    let judged = first.0.iter().map(|f| f.0.len() as u64).sum();
    o.add("results_compared", judged);
    o.add("scores_compared", first.1.iter().map(|x| x.ap.len() as u64).sum());
    o.nontrivial = judged > 1;
    o.shape((frames.len(), judged, first.2.clone()));
    o.sample = Some(json!({"frames": frames.len(), "results": judged, "scores": show(&first.1)}));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P32

/// Everything below a directory: kind, size, time of change and content.
fn inventory(root: &Path, result: &Path) -> BTreeMap<PathBuf, String> {
    fn visit(dir: &Path, out: &mut BTreeMap<PathBuf, String>, result: &Path) {
        for entry in std::fs::read_dir(dir).expect("harness: read_dir") {
            let path = entry.expect("harness: entry").path();
            let meta = std::fs::symlink_metadata(&path).expect("harness: metadata");
            let changed = meta.modified().ok().and_then(|t| t.duration_since(std::time::UNIX_EPOCH).ok()).map(|d| d.as_nanos());
            let state = if meta.is_dir() {
                visit(&path, out, result);
                // created in or above the results is allowed, all else leaves a trace in this time
                let trace = if path.starts_with(result) || result.starts_with(&path) { None } else { changed };
                format!("directory {:?}", trace)
            } else if meta.is_file() {
                use std::hash::{Hash, Hasher};
                use std::os::unix::fs::{MetadataExt, PermissionsExt};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                std::fs::read(&path).expect("harness: read").hash(&mut h);
                format!("file {} {} {:?} {:x} {:o}", meta.ino(), meta.len(), changed, h.finish(), meta.permissions().mode())
            } else {
                format!("link {:?}", std::fs::read_link(&path).ok())
            };
            out.insert(path, state);
        }
    }
    let mut out = BTreeMap::new();
    visit(root, &mut out, result);
    out
}

/// Names in the working directory, where stray files would end up.
fn strays() -> Vec<String> {
    let mut names: Vec<String> = std::fs::read_dir(".")
        .expect("harness: working directory")
        .filter_map(|e| e.ok())
        .map(|e| e.file_name().to_string_lossy().into_owned())
        .collect();
    for shared in ["/tmp", "/var/tmp", "/dev/shm"] {
        // others use these, too
        let entries = std::fs::read_dir(shared).into_iter().flatten().filter_map(|e| e.ok());
        let own = entries.map(|e| e.path().display().to_string()).filter(|n| n.contains("perception"));
        names.extend(own);
    }
    names.push(format!("in {:?}", std::env::current_dir().ok()));
    names.sort();
    names
}

/// What a run gets: the site, whether its files are damaged.
fn use_site(rng: &mut Rng, site: &Site, o: &mut Obs) -> Result<bool, String> {
    let (file, result) = match rng.chance(0.2) {
        true => (from_here(site.file.to_str().unwrap()).into(), from_here(site.result.to_str().unwrap()).into()),
        false => (site.file.clone(), site.result.clone()),
    };
    let c = match config::load(&file, &result, rng.chance(0.5)) {
        Ok(c) => c,
        Err(_) => return Ok(false),
    };
    let mut m = match PerceptionEvaluationManager::from(&c) {
        Ok(m) => m,
        Err(_) => return Ok(false),
    };
    for i in 0..m.frame_ground_truths.len() {
        let at = m.frame_ground_truths[i].timestamp;
        if let Some(gt) = m.get_frame_ground_truth(&at) {
            let est = detections(rng, &site.scenario.settings, &gt);
            m.add_frame_result(&est, &gt).map_err(|e| format!("add_frame_result fails: {:?}", e))?;
        }
        // times that belong to no frame, each another one
        for _ in 0..20 {
            let far = at + Duration::days(3_000 + rng.int(0, 100_000)) + Duration::microseconds(rng.int(0, 80_000_000_000));
            ensure!(m.get_frame_ground_truth(&far).is_none(), "there is a frame at {}", far);
        }
    }
    let _ = format!("{}", m.get_metrics_score().map_err(|e| e.to_string())?);
    let n = match NuScenes::load(VERSION, &site.data) {
        Ok(n) => n,
        Err(_) => return Ok(false),
    };
    for d in n.sample_data_iter() {
        let _ = (d.load().is_ok(), d.load_raw().is_ok(), d.open().is_ok(), n.get_boxes(&d.token).is_ok());
        o.hit("sensor_record_used");
    }
    for l in n.log_iter() {
        let _ = l.open().is_ok();
    }
    // names nobody has seen before
    for _ in 0..20 {
        let name = format!("strange.{}{}", gen::uuid(rng), gen::uuid(rng));
        if let Ok(converter) = LabelConverter::new("autoware") {
            let label = converter.convert(&name);
            ensure!(label == Label::Unknown, "{:?} becomes {}", name, label);
        }
        let refused = (
            LabelConverter::new(&name).is_err(),
            FrameID::from_str(&name).is_err(),
            EvaluationTask::from_str(&name).is_err(),
        );
        let _ = (refused, load_dataset(&name, &site.data.join(&name), &EvaluationTask::Detection, &FrameID::BaseLink).is_err());
    }
    Ok(true)
}

/// The rest of what can be called: other tasks, modes, filters, conversions, numbers that are none.
fn the_rest(rng: &mut Rng, site: &Site) -> Verdict {
    let mut s = site.scenario.settings.clone();
    let p = HistoryParams { frames: 2, per_label: 3, ..HistoryParams::draw(rng) };
    let ids: Vec<String> = (0..rng.below(40)).map(|_| gen::uuid(rng)).collect();
    if rng.chance(0.7) {
        s.uuids = Some(ids);
    }
    let mut frames = gen::history(rng, &s, &p);
    for f in &mut frames {
        for x in f.est.iter_mut().chain(&mut f.gt.objects) {
            if rng.chance(0.5) {
                x.uuid = Some(gen::uuid(rng));
            }
            if rng.chance(0.2) {
                poison(rng, x);
            }
        }
    }
    for task in [EvaluationTask::Detection, EvaluationTask::Tracking, EvaluationTask::Prediction] {
        let mut config = s.config()?;
        config.evaluation_task = task.clone();
        let mut m = manager(&config);
        feed(&mut m, &frames)?;
        let score = m.get_metrics_score().map(|score| format!("{} {:?}", score, score));
        ensure!(score.is_ok() == (task == EvaluationTask::Detection), "scores of {}: {}", task, score.is_ok());
        let _ = format!("{:?} {:?}", config, m.frame_results.last());
        let copy = m.frame_results.clone();
        drop(m);
        drop(copy);
        for f in &frames {
            let results = get_perception_results(&f.est, &f.gt.objects);
            for mode in &MODES {
                let frame = PerceptionFrameResult::new(results.clone(), f.gt.clone(), &s.targets, mode.clone(), &vec![1.0; s.targets.len()]);
                let _ = frame.is_ok();
                for r in &results {
                    let _ = r.is_result_correct(mode, &0.5).is_ok();
                }
            }
            for x in f.est.iter().chain(&f.gt.objects) {
                let _ = (x.heading(), x.euler(), x.footprint(), x.area(), x.volume(), x.distance(), x.distance_bev(), x.rotation_matrix(), x.label_name());
                let _ = format!("{} {} {:?} {}", x, x.state(), x, f.gt);
            }
        }
    }
    for name in ["nuscenes", "autoware", "awsim", ""] {
        let _ = LabelConverter::new(name).map(|c| perception_eval::label::convert_labels(&vec!["car", "no such label"], &c).is_ok());
    }
    // records of the tables, read and written
    for table in ds::TABLES {
        for v in site.ds.table(table).iter().take(2) {
            fn again<T: serde::de::DeserializeOwned + serde::Serialize>(v: &serde_json::Value) -> usize {
                serde_json::from_value::<T>(v.clone()).ok().and_then(|r| serde_json::to_string(&r).ok()).map_or(0, |t| t.len())
            }
            use perception_eval::dataset::nuscenes::schema::*;
            let mut broken = v.clone();
            broken["token"] = json!(gen::uuid(rng)[1..]);
            for v in [v, &broken] {
                let _ = match table {
                    "attribute" => again::<Attribute>(v),
                    "calibrated_sensor" => again::<CalibratedSensor>(v),
                    "category" => again::<Category>(v),
                    "ego_pose" => again::<EgoPose>(v),
                    "instance" => again::<Instance>(v),
                    "log" => again::<Log>(v),
                    "map" => again::<Map>(v),
                    "sample" => again::<Sample>(v),
                    "sample_annotation" => again::<SampleAnnotation>(v),
                    "sample_data" => again::<SampleData>(v),
                    "scene" => again::<Scene>(v),
                    "sensor" => again::<Sensor>(v),
                    _ => again::<Visibility>(v),
                };
            }
        }
    }
    // everything that was loaded
    if let Ok(n) = NuScenes::load(VERSION, &site.data) {
        for d in n.sample_data_iter() {
            let _ = (n.get_sample_data(&d.token, &true).is_ok(), d.sample().timestamp, d.ego_pose().timestamp, d.calibrated_sensor().sensor().token.to_string());
            let _ = (d.prev().map(|d| d.timestamp), d.next().map(|d| d.timestamp), n.get_box(&d.token).is_err());
        }
        for a in n.sample_annotation_iter() {
            let _ = (a.sample().timestamp, a.instance().category().name.len(), a.attribute_iter().count(), n.get_boxes(&a.token).is_err());
        }
        for scene in n.scene_iter() {
            let _ = (scene.log().location.len(), scene.sample_iter().map(|s| s.sample_annotation_iter().count() + s.sample_data_iter().count()).sum::<usize>());
        }
        let _ = (n.map_iter().map(|m| m.log_iter().count()).sum::<usize>(), n.sensor_iter().count(), n.visibility_iter().count(), n.instance_iter().map(|i| i.sample_annotation_iter().count()).sum::<usize>());
        let _ = format!("{:?}", n.version());
    }
    Ok(())
}

/// Some sensor files, whole or damaged.
fn sensor_files(rng: &mut Rng, site: &Site) {
    for v in site.ds.table("sample_data") {
        if rng.chance(0.5) {
            let len = rng.below(300);
            let len = if rng.chance(0.7) { len / 20 * 20 } else { len };
            let bytes = data::cloud_bytes(rng, len);
            data::write_file(&site.data.join(text(v, "filename")), &bytes);
        }
    }
}

pub fn p32(rng: &mut Rng, env: &Env, o: &mut Obs) -> Verdict {
    let site = site(rng, env, "p32");
    let root = site.file.parent().unwrap().to_path_buf();
    sensor_files(rng, &site);
    // files of others, also among the results
    for name in ["visualize/frame0.png", "old.log", "log/older.log", "log/output.log.1", "scene_result.json"] {
        if rng.chance(0.4) {
            data::write_file(&site.result.join(name), name.as_bytes());
        }
    }
    for name in ["notes.txt", "latest.txt", "scenario.yaml.bak", "output.log"] {
        if rng.chance(0.4) {
            data::write_file(&site.result.with_file_name(name), name.as_bytes());
        }
        if rng.chance(0.2) {
            data::write_file(&root.join("other").join(name), name.as_bytes());
        }
    }
    // and next to the tables and the sensor files
    for place in [VERSION, "maps", "data", ""] {
        for name in ["README.md", ".hidden", "panoptic.json", "lidarseg.json", "index"] {
            if rng.chance(0.2) {
                data::write_file(&site.data.join(place).join(name), b"[]");
            }
        }
    }
    // also ones that look as if nobody needed them
    for place in [site.data.clone(), site.data.join(VERSION), root.clone(), site.file.parent().unwrap().to_path_buf(), site.result.clone()] {
        for _ in 0..rng.below(8) {
            let stem = rng.pick(&["sample", "sample_data", "sample_annotation", "scene", "ego_pose", "dataset", "scenario", "output", "index", "cache", "nuscenes", "perception_eval", "result", "tables"]);
            let end = rng.pick(&["json.part", "json.tmp", "json.bak", "json~", "json.gz", "json.old", "json.lock", "lock", "tmp", "part", "swp", "cache", "idx", "pid", "log", "log.gz", "csv", "pkl", "bin", "yaml.tmp", "download", "crdownload"]);
            let hidden = if rng.chance(0.3) { "." } else { "" };
            data::write_file(&place.join(format!("{}{}.{}", hidden, stem, end)), b"x");
        }
        for _ in 0..rng.below(3) {
            let name = rng.pick(&[".DS_Store", "Thumbs.db", "core", "nohup.out", ".cache/tables", "__pycache__/a.pyc", "tmp/a", ".lock", "LOCK", "desktop.ini", "lost+found/1"]);
            data::write_file(&place.join(name), b"x");
        }
    }
    let damaged = rng.chance(0.3);
    if damaged {
        let table = site.data.join(VERSION).join(format!("{}.json", *rng.pick(&ds::TABLES)));
        let victim = if rng.chance(0.3) { &site.file } else { &table };
        let mut bytes = std::fs::read(victim).expect("harness: read");
        if *victim == site.file {
            bytes = cut_off(&bytes);
        } else {
            bytes.truncate(bytes.len() / 2);
        }
        std::fs::write(victim, bytes).expect("harness: write");
    }
    let (before, here) = (inventory(&root, &site.result), strays());
    let mut whole = false;
    crate::watch::work_here();
    let runs: Result<Vec<bool>, String> = (0..1 + rng.below(2)).map(|_| use_site(rng, &site, o)).collect();
    let refused = crate::watch::refused();
    ensure!(refused.is_empty(), "a run touches what is not its own (which was refused): {:?}", refused);
    for w in runs? {
        whole = w;
    }
    ensure!(whole != damaged, "a run on {} files ends well: {}", if damaged { "damaged" } else { "whole" }, whole);
    let (after, there) = (inventory(&root, &site.result), strays());
    ensure!(here == there, "the working directory had {:?} and has {:?}", here, there);
    let log = site.result.join("log").join("output.log");
    for (path, state) in &before {
        match after.get(path) {
            Some(now) if now == state || *path == log => o.hit("file_unchanged"),
            now => return Err(format!("{:?} was {} and is {:?}", path, state, now)),
        }
    }
    for path in after.keys().filter(|p| !before.contains_key(*p)) {
        // directories on the way to it belong to it
        ensure!(path.starts_with(&site.result) || (site.result.starts_with(path) && path.is_dir()), "{:?} was created outside the result directory {:?}", path, site.result);
        o.hit("created_among_results");
    }
    o.hit(if whole { "whole_run" } else { "failed_run" });
    o.nontrivial = true;
    o.shape((before.len(), after.len() - before.len().min(after.len()), whole));
    o.sample = Some(json!({"files": before.len(), "created": after.keys().filter(|p| !before.contains_key(*p)).map(|p| p.strip_prefix(&root).unwrap().display().to_string()).collect::<Vec<_>>()}));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P33

/// Open files and threads of the process and the bytes it has allocated.
fn holdings() -> (Vec<String>, usize, i64) {
    let bytes = crate::live_bytes();
    let mut files: Vec<String> = std::fs::read_dir("/proc/self/fd")
        .expect("harness: /proc/self/fd")
        .filter_map(|e| e.ok())
        .filter_map(|e| std::fs::read_link(e.path()).ok())
        .map(|p| p.display().to_string())
        .filter(|p| !p.ends_with("/fd"))
        .collect();
    files.sort();
    let threads = std::fs::read_dir("/proc/self/task").expect("harness: /proc/self/task").count();
    (files, threads, bytes)
}

/// Writes one dataset of each kind of fault.
fn faulty_datasets(rng: &mut Rng, env: &Env) -> Vec<(&'static str, PathBuf)> {
    let params = DsParams { scenes: 2, samples: 2, instances: 2, sensors: 1, sweeps: 0 };
    let ds = ds::consistent(rng, &params);
    let mut faults = ds::faults(&ds, rng);
    rng.shuffle(&mut faults);
    let mut out: Vec<(&'static str, PathBuf)> = Vec::new();
    for fault in &faults {
        if out.iter().all(|(kind, _)| *kind != fault.kind()) {
            let dir = env.dir(fault.kind());
            fault.write(&ds, &dir, rng);
            out.push((fault.kind(), dir));
        }
    }
    out
}

/// The first half of a scenario at most, none of it behind the name of the section with the parameters (what
/// comes last in a scenario may be a list of any length, and part of a list is a list).
fn cut_off(scenario: &[u8]) -> Vec<u8> {
    const SECTION: &[u8] = b"PerceptionEvaluationConfig";
    let at = scenario.windows(SECTION.len()).position(|w| w == SECTION).expect("harness: section");
    scenario[..at.min(scenario.len() / 2)].to_vec()
}

/// Loads what is refused, again and again, and does other things that fail.
fn failures(rng: &mut Rng, faulty: &[(&'static str, PathBuf)], site: &Site, o: &mut Obs) -> Verdict {
    for (kind, dir) in faulty {
        for _ in 0..5 {
            let refused = NuScenes::load(VERSION, dir).map(|_| ()).map_err(|e| e.to_string());
            ensure!(refused.is_err(), "a dataset with a fault ({}) loads", kind);
        }
        let _ = load_dataset(VERSION, dir, &EvaluationTask::Detection, &FrameID::BaseLink).is_err();
        o.hit("refused_loads");
    }
    // scenarios
    let whole = std::fs::read(&site.file).expect("harness: read");
    let file = site.file.with_file_name("broken.yaml");
    for kind in 0..3 {
        let bytes = match kind {
            0 => cut_off(&whole),
            1 => b"{".to_vec(),
            _ => b"Datasets: []\n".to_vec(),
        };
        std::fs::write(&file, &bytes).expect("harness: write");
        for _ in 0..10 {
            ensure!(config::load(&file, &site.result, false).is_err(), "half of a scenario loads: {:?}", String::from_utf8_lossy(&bytes));
        }
    }
    std::fs::remove_file(&file).expect("harness: remove");
    // names and filters
    for _ in 0..10 {
        let settings = gen::Settings::wide(rng, 3);
        let names: Vec<&str> = settings.names.iter().map(|s| s.as_str()).collect();
        let mut foreign = names.clone();
        foreign.push("no such label");
        let _ = (
            perception_eval::config::FilterParams::new(&names, -1.0, 1.0, None, None).is_err(),
            perception_eval::config::FilterParams::new(&foreign, 1.0, 1.0, Some(0), None).is_err(),
            perception_eval::config::MetricsParams::new(&foreign, f64::NAN, 1.0, 1.0, 1.0).is_err(),
        );
    }
    Ok(())
}

/// How many times have been asked for in this process.
static QUESTIONS: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);

pub fn p33(rng: &mut Rng, env: &Env, o: &mut Obs) -> Verdict {
    const ROUNDS: usize = 10;
    let mut scratch = Obs::default();
    scratch.add("sensor_record_used", 0);
    let mut seen = Vec::with_capacity(ROUNDS);
    let mut open_files = Vec::new();
    let (mut whole, mut broken, mut in_threads) = (0, 0, 0);
    let mut made = Vec::with_capacity(ROUNDS);
    let faulty = faulty_datasets(rng, env);
    scratch.add("refused_loads", 0);
    for round in 0..ROUNDS {
        {
            let site = site(rng, env, "p33");
            sensor_files(rng, &site);
            made.push(site.ds.len());
            if rng.chance(0.3) {
                let table = site.data.join(VERSION).join(format!("{}.json", *rng.pick(&ds::TABLES)));
                let mut bytes = std::fs::read(&table).expect("harness: read");
                bytes.truncate(bytes.len() / 2);
                std::fs::write(&table, bytes).expect("harness: write");
            }
            failures(rng, &faulty, &site, &mut scratch)?;
            // thousands of questions and names that are not asked twice
            let from = QUESTIONS.fetch_add(3_000, std::sync::atomic::Ordering::Relaxed);
            for i in from..from + 3_000 {
                let at = gen::time_us(1_000_000_000_000_000 + 1_000_000 * i);
                ensure!(perception_eval::dataset::get_current_frame(&[], &at).is_none(), "there is a frame at {} in nothing", at);
            }
            let converter = LabelConverter::new("autoware").map_err(|e| e.to_string())?;
            for _ in 0..1_000 {
                let _ = (converter.convert(&gen::uuid(rng)), FrameID::from_str(&gen::uuid(rng)).is_ok());
            }
            for _ in 0..2 {
                the_rest(rng, &site)?;
            }
            // in threads that end
            for _ in 0..2 {
                let seed = rng.u64();
                std::thread::scope(|scope| {
                    let there = scope.spawn(|| {
                        let mut rng = Rng::new(seed, "P33", 0);
                        let mut seen = Obs::default();
                        the_rest(&mut rng, &site)?;
                        use_site(&mut rng, &site, &mut seen)
                    });
                    there.join().unwrap_or_else(|e| std::panic::resume_unwind(e))
                })?;
                in_threads += 1;
            }
            for _ in 0..2 {
                if use_site(rng, &site, &mut scratch)? {
                    whole += 1
                } else {
                    broken += 1
                }
            }
        }
        if round >= 2 {
            drop(std::mem::take(&mut open_files));
            let now = holdings();
            seen.push((now.0.len(), now.1, now.2));
            open_files = now.0;
        }
    }
    let (first, last) = (&seen[0], &seen[seen.len() - 1]);
    ensure!(
        first.0 == last.0,
        "{} files were open after 3 rounds, {} after {}: {:?}", first.0, last.0, ROUNDS, open_files
    );
    ensure!(first.1 == last.1, "{} threads ran after 3 rounds, {} after {}", first.1, last.1, ROUNDS);
    let memory: Vec<i64> = seen.iter().map(|s| s.2).collect();
    // what is kept for later is kept once
    let times = memory.windows(2).filter(|w| w[1] > w[0]).count();
    let growing = memory.windows(2).all(|w| w[1] >= w[0]) && times >= 4 && memory[memory.len() - 1] - memory[0] > 600;
    // a list that grows seldom, and then by much
    let stepwise = memory.windows(2).all(|w| w[1] >= w[0] - (8 << 10)) && memory[memory.len() - 1] - memory[0] > 64 << 10;
    ensure!(!growing && !stepwise, "the memory held after each round (everything made in it is dropped) keeps growing: {:?} bytes", memory);
    o.add("whole_run", whole);
    o.add("failed_run", broken);
    o.add("runs_in_threads", in_threads);
    o.add("refused_loads", *scratch.events.get("refused_loads").unwrap_or(&0));
    o.add("holdings_compared", seen.len() as u64);
    o.nontrivial = true;
    o.shape((first.0, whole, broken, made));
    o.sample = Some(json!({"open_files": first.0, "threads": first.1, "bytes": memory}));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P34

/// The numbers in the brackets after a name, none if there are no brackets.
fn printed(text: &str, name: &str) -> Result<Vec<f64>, String> {
    let at = text.find(&format!("{}:", name)).ok_or_else(|| format!("{} is not printed: {:?}", name, text))?;
    let value = text[at + name.len() + 1..].lines().next().unwrap_or("");
    let inside = match (value.find('['), value.find(']')) {
        (Some(a), Some(b)) => &value[a + 1..b],
        (None, None) if !value.contains(|c: char| c.is_ascii_digit()) => "",
        (None, None) => value,
        _ => return Err(format!("{} is printed as {:?}", name, value)),
    };
    let numbers: Result<Vec<f64>, _> = inside.split(',').map(|v| v.trim()).filter(|v| !v.is_empty()).map(|v| v.parse()).collect();
    numbers.map_err(|_| format!("{} is printed as {:?}", name, value))
}

fn printed_exactly(text: &str, x: &DynamicObject) -> Verdict {
    let bits = |v: &[f64]| v.iter().map(|c| c.to_bits()).collect::<Vec<_>>();
    for (name, want) in [
        ("position", &x.position[..]),
        ("orientation", &x.orientation[..]),
        ("size", &x.size[..]),
        ("velocity", x.velocity.as_ref().map_or(&[][..], |v| &v[..])),
    ] {
        let got = printed(text, name)?;
        ensure!(bits(&got) == bits(want), "{} is printed as {:?} but is {:?}: {:?}", name, got, want, text);
    }
    Ok(())
}

pub fn p34(rng: &mut Rng, _env: &Env, o: &mut Obs) -> Verdict {
    let label = rng.pick(&gen::LABELS).clone();
    let mut a = gen::object(rng, label);
    if rng.chance(0.1) {
        // on an axis, standing still, level
        for v in [&mut a.position[..], &mut a.orientation[1..], &mut a.size[..]] {
            let i = rng.below(v.len());
            v[i] = *rng.pick(&[0.0, -0.0]);
        }
        if rng.chance(0.5) {
            a.velocity = Some([0.0, -0.0, rng.range(-5.0, 5.0)]);
        }
    }
    let mut b = match rng.below(8) {
        0 => a.clone(),
        1 => gen::object(rng, a.label.clone()),
        _ => gen::sibling(rng, &a),
    };
    if rng.chance(0.1) {
        b.label = rng.pick(&gen::LABELS).clone();
    }
    if rng.chance(0.1) {
        let i = rng.below(4);
        b.orientation[i] = b.orientation[i].next_up();
    }
    if rng.chance(0.1) {
        let i = rng.below(3);
        b.position[i] = b.position[i].next_down();
    }
    if rng.chance(0.1) {
        // zeros of either sign are the same number
        for v in [&mut b.position[..], &mut b.orientation[..], &mut b.size[..]].into_iter().chain(b.velocity.as_mut().map(|v| &mut v[..])) {
            v.iter_mut().filter(|v| **v == 0.0).for_each(|v| *v = -*v);
        }
        o.hit("signs_of_zeros");
    }
    o.census.objects([&a, &b]);
    o.census.pair(&a, &b);
    let equal = a.timestamp == b.timestamp
        && a.frame_id == b.frame_id
        && a.position == b.position
        && a.orientation == b.orientation
        && a.label == b.label;
    for (x, y, want) in [(&a, &b, equal), (&b, &a, equal), (&a, &a, true), (&b, &b, true)] {
        ensure!((x == y) == want && (x != y) != want, "{} equals {}: {}, but should: {}", brief(x), brief(y), x == y, want);
        o.hit(if want { "equal_objects" } else { "unequal_objects" });
    }
    let same = a.position == b.position && a.orientation == b.orientation && a.size == b.size && a.velocity == b.velocity;
    ensure!((a.state() == b.state()) == same, "the states of {} and {} are equal: {}", brief(&a), brief(&b), !same);
    o.hit(if same { "equal_states" } else { "unequal_states" });

    // frames
    let mut list = vec![a.clone(), b.clone()];
    let f = FrameGroundTruth { timestamp: a.timestamp, objects: list.clone() };
    match rng.below(4) {
        0 => list.reverse(),
        1 => {
            list.pop();
        }
        _ => {}
    }
    let g = FrameGroundTruth { timestamp: b.timestamp, objects: list };
    let want = f.timestamp == g.timestamp && f.objects.len() == g.objects.len() && (equal || f.objects.iter().zip(&g.objects).all(|(x, y)| gen::same(x, y)));
    ensure!((f == g) == want && (g == f) == want, "frames {:?} and {:?} are equal: {}", f, g, f == g);
    o.hit(if want { "equal_frames" } else { "unequal_frames" });
    let text = format!("{}", f);
    ensure!(
        text.contains(&format!("{:?}", f.timestamp)) && text.contains(&f.objects.len().to_string()),
        "a frame at {:?} with {} objects is printed as {:?}", f.timestamp, f.objects.len(), text
    );

    // as printed
    for x in [&a, &b] {
        let text = format!("{}", x);
        printed_exactly(&text, x)?;
        printed_exactly(&format!("{}", x.state()), x)?;
        let got = printed(&text, "confidence")?;
        ensure!(got.len() == 1 && got[0] == x.confidence, "the confidence {} is printed in {:?}", x.confidence, text);
        let line = |name: &str| text.lines().find(|l| l.starts_with(name)).unwrap_or("").to_string();
        ensure!(line("label:").contains(&x.label_name()), "{} is printed as {:?}", x.label, text);
        ensure!(line("frame_id:").contains(&x.frame_id.to_string()), "frame {} is printed as {:?}", x.frame_id, text);
        ensure!(x.label_name() == x.label.to_string(), "{} is named {}", x.label, x.label_name());
        if let Some(id) = &x.uuid {
            ensure!(line("uuid:").contains(id.as_str()), "id {:?} is printed as {:?}", id, text);
        }
        o.hit("printed_object");
    }
    o.nontrivial = !gen::same(&a, &b);
    o.shape((brief(&a), brief(&b)));
    o.sample = Some(json!({"a": brief(&a), "b": brief(&b), "equal": equal}));
    Ok(())
}

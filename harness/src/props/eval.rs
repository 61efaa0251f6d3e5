//! Matching, filtering, classification, scores: P01 to P08 and P27.

use crate::ensure;
use crate::gen::{self, brief, briefs, key, FrameIn, HistoryParams, Key, Settings, LABELS};
use crate::obs::{Env, Obs, Verdict};
use crate::oracle::{self, add};
use crate::report::{self, close, Section};
use crate::rng::Rng;
use perception_eval::config::PerceptionEvaluationConfig;
use perception_eval::dataset::FrameGroundTruth;
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::filter::filter_objects;
use perception_eval::label::Label;
use perception_eval::manager::PerceptionEvaluationManager;
use perception_eval::matching::MatchingMode;
use perception_eval::object::object3d::DynamicObject;
use perception_eval::result::frame::PerceptionFrameResult;
use perception_eval::result::object::{get_perception_results, PerceptionResult};
use serde_json::json;
use std::collections::HashMap;
use std::f64::consts::PI;

const MODES: [MatchingMode; 4] = [
    MatchingMode::CenterDistance,
    MatchingMode::PlaneDistance,
    MatchingMode::Iou2d,
    MatchingMode::Iou3d,
];

fn mode_of(name: &str) -> Option<MatchingMode> {
    MODES.iter().find(|m| format!("{:?}", m) == name).cloned()
}

pub fn manager(config: &PerceptionEvaluationConfig) -> PerceptionEvaluationManager<'_> {
    PerceptionEvaluationManager { config, frame_ground_truths: Vec::new(), frame_results: Vec::new() }
}

/// Adds every frame, the way a user does.
pub fn feed(m: &mut PerceptionEvaluationManager, frames: &[FrameIn]) -> Verdict {
    for f in frames {
        m.add_frame_result(&f.est, &f.gt)
            .map_err(|e| format!("add_frame_result failed: {:?} for {} / {}", e, briefs(&f.est), briefs(&f.gt.objects)))?;
    }
    Ok(())
}

pub fn scores(m: &PerceptionEvaluationManager) -> Result<Vec<Section>, String> {
    let s = m.get_metrics_score().map_err(|e| format!("get_metrics_score failed: {}", e))?;
    report::observe(&s)
}

fn section<'s>(sections: &'s [Section], mode: &MatchingMode) -> Result<&'s Section, String> {
    let name = format!("{:?}", mode);
    let found: Vec<&Section> = sections.iter().filter(|s| s.mode == name).collect();
    if found.len() != 1 {
        return Err(format!("the score has {} sections for {}", found.len(), name));
    }
    Ok(found[0])
}

pub fn multiset<'a, I: Iterator<Item = &'a DynamicObject>>(items: I) -> HashMap<Key, i64> {
    let mut map = HashMap::new();
    for o in items {
        *map.entry(key(o)).or_insert(0) += 1;
    }
    map
}

fn bucket(n: usize) -> usize {
    match n {
        0..=3 => n,
        4..=7 => 4,
        8..=20 => 8,
        21..=60 => 21,
        _ => 61,
    }
}

// ------------------------------------------------------------------------------------------ P01

/// Objects to be matched: positions crowded, spread or coinciding, with duplicates.
fn crowd(rng: &mut Rng, n: usize, labels: &[Label], kind: usize) -> Vec<DynamicObject> {
    let mut out: Vec<DynamicObject> = Vec::new();
    for _ in 0..n {
        if !out.is_empty() && rng.chance(0.08) {
            let o = out[rng.below(out.len())].clone();
            out.push(o);
            continue;
        }
        let label = rng.pick(labels).clone();
        let mut o = gen::object(rng, label);
        match kind {
            0 => o.position = [0, 1, 2].map(|_| rng.int(-2, 2) as f64),
            1 => o.position = [rng.range(-3.0, 3.0), rng.range(-3.0, 3.0), rng.range(-3.0, 3.0)],
            2 => o.position = [rng.range(-80.0, 80.0), rng.range(-80.0, 80.0), 0.0],
            _ => {}
        }
        if rng.chance(0.05) {
            o.uuid = None;
        }
        out.push(o);
    }
    out
}

fn some_labels(rng: &mut Rng) -> Vec<Label> {
    let mut labels = LABELS.to_vec();
    rng.shuffle(&mut labels);
    labels.truncate(1 + rng.below(4));
    labels
}

fn count(rng: &mut Rng, thorough: bool) -> usize {
    match rng.below(20) {
        0 | 1 => 0,
        2..=4 => 1,
        5..=12 => 2 + rng.below(5),
        13..=17 => 7 + rng.below(20),
        _ => 30 + rng.below(if thorough { 120 } else { 50 }),
    }
}

/// Numbers of estimates and ground truths. Pairing takes cubic time: big scenes are rare.
fn counts(rng: &mut Rng, thorough: bool) -> (usize, usize) {
    match rng.below(5_000) {
        0 => (250 + rng.below(100), 250 + rng.below(100)),
        1..=8 => (300 + rng.below(1200), rng.below(12)),
        9..=16 => (rng.below(12), 300 + rng.below(1200)),
        _ => (count(rng, thorough), count(rng, thorough)),
    }
}

pub fn p01(rng: &mut Rng, env: &Env, o: &mut Obs) -> Verdict {
    let labels = some_labels(rng);
    let kind = rng.below(4);
    let (mut ne, mut ng) = counts(rng, env.thorough);
    if rng.below(25_000) == 0 {
        // more than sixteen bits count
        ne = 65_530 + rng.below(3_000);
        ng = rng.below(4);
        if rng.chance(0.3) {
            std::mem::swap(&mut ne, &mut ng);
        }
        o.hit("giant_frames");
    }
    // a table of millions of pairs, few of which have the same label
    let apart = rng.below(12_000) == 0;
    if apart {
        ne = 900 + rng.below(900);
        ng = 1_200 + rng.below(600);
        o.hit("giant_tables");
    }
    let mut est = crowd(rng, ne, &labels, kind);
    let mut gt = crowd(rng, ng, &labels, kind);
    if apart {
        let same = rng.below(8);
        for (side, label) in [(&mut est, Label::Car), (&mut gt, Label::Bus)] {
            side.iter_mut().for_each(|x| x.label = label.clone());
            for _ in 0..same {
                let i = rng.below(side.len());
                side[i].label = Label::Animal;
            }
        }
    }
    o.census.frame(&est, &gt);
    let through_manager = rng.chance(0.4);

    let (results, est_out): (Vec<PerceptionResult>, Vec<DynamicObject>) = if through_manager {
        let mut s = Settings::wide(rng, 8);
        s.max_x = 1e9;
        s.max_y = 1e9;
        let config = s.config()?;
        let mut m = manager(&config);
        let frame = FrameIn {
            est: est.clone(),
            gt: FrameGroundTruth { timestamp: gen::time_us(5), objects: gt.clone() },
        };
        feed(&mut m, std::slice::from_ref(&frame))?;
        ensure!(m.frame_results.len() == 1, "{} frame results after one frame", m.frame_results.len());
        (m.frame_results[0].results().clone(), est.clone())
    } else {
        (get_perception_results(&est, &gt), est.clone())
    };

    let context = || {
        format!(
            "est={} gt={} results={}",
            briefs(&est),
            briefs(&gt),
            results
                .iter()
                .take(12)
                .map(|r| format!(
                    "({} -> {})",
                    brief(&r.estimated_object),
                    r.ground_truth_object.as_ref().map(brief).unwrap_or_default()
                ))
                .collect::<Vec<_>>()
                .join(", ")
        )
    };
    ensure!(results.len() == est_out.len(), "{} estimates, {} results: {}", est_out.len(), results.len(), context());
    let want = multiset(est_out.iter());
    let have = multiset(results.iter().map(|r| &r.estimated_object));
    ensure!(want == have, "the estimates of the results are not those given: {}", context());
    let stock = multiset(gt.iter());
    let used = multiset(results.iter().filter_map(|r| r.ground_truth_object.as_ref()));
    for (k, n) in &used {
        let limit = stock.get(k).copied().unwrap_or(0);
        ensure!(*n <= limit, "ground truth {:?} is given {} times and used {} times: {}", k, limit, n, context());
    }
    let paired = results.iter().filter(|r| r.ground_truth_object.is_some()).count();
    o.add("estimates", est.len() as u64);
    o.add("ground_truths", gt.len() as u64);
    o.add("pairs", paired as u64);
    o.add("unpaired", (results.len() - paired) as u64);
    o.hit(if through_manager { "through_manager" } else { "direct" });
    o.nontrivial = paired > 0 && ne > 1 && ng > 1;
    o.shape((bucket(ne), bucket(ng), bucket(paired), labels.len(), kind, through_manager, stock.len() < gt.len()));
    o.sample = Some(json!({"estimates": ne, "ground_truths": ng, "pairs": paired, "labels": format!("{:?}", labels), "through_manager": through_manager}));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P02

fn pairs_of(
    results: &[PerceptionResult],
    est: &[DynamicObject],
    gt: &[DynamicObject],
) -> Result<Vec<Option<usize>>, String> {
    let stock = |v: &[DynamicObject]| -> HashMap<Key, Vec<usize>> {
        let mut map: HashMap<Key, Vec<usize>> = HashMap::new();
        for (i, o) in v.iter().enumerate() {
            map.entry(key(o)).or_default().push(i);
        }
        map
    };
    let (mut e_stock, mut g_stock) = (stock(est), stock(gt));
    let mut out = vec![None; est.len()];
    for r in results {
        let e = e_stock.get_mut(&key(&r.estimated_object)).and_then(|v| v.pop());
        let e = e.ok_or_else(|| format!("a result has an estimate that was not given or has a result already: {}", brief(&r.estimated_object)))?;
        if let Some(g) = &r.ground_truth_object {
            let j = g_stock.get_mut(&key(g)).and_then(|v| v.pop());
            out[e] = Some(j.ok_or_else(|| format!("a result has a ground truth that was not given or is used already: {}", brief(g)))?);
        }
    }
    ensure!(e_stock.values().all(|v| v.is_empty()), "an estimate has no result: {}", briefs(est));
    Ok(out)
}

pub fn p02(rng: &mut Rng, env: &Env, o: &mut Obs) -> Verdict {
    let labels = some_labels(rng);
    let kind = rng.below(7);
    let (ne, ng) = counts(rng, env.thorough);
    let odd_sizes = rng.chance(0.2);
    let make = |rng: &mut Rng, n: usize| {
        let mut v: Vec<DynamicObject> = (0..n).map(|_| {
            let label = rng.pick(&labels).clone();
            gen::object(rng, label)
        }).collect();
        for x in &mut v {
            match kind {
                // on a line with growing gaps: pairs compete for each other
                0 => x.position = [rng.range(0.0, 3.0).exp(), 0.0, 0.0],
                // stacked: near in the plane, far in height
                1 => x.position = [rng.range(-1.0, 1.0), rng.range(-1.0, 1.0), rng.range(-20.0, 20.0)],
                2 => x.position = [rng.range(-5.0, 5.0), rng.range(-5.0, 5.0), rng.range(-1.0, 1.0)],
                3 => x.position = [rng.int(-2, 2) as f64, rng.int(-2, 2) as f64, 0.0],
                // anywhere
                4 => {}
                5 => x.position = x.position.map(|v| v * *rng.pick(&[1e-6, 1.0, 1e3])),
                _ => x.position = [rng.range(-80.0, 80.0), rng.range(-80.0, 80.0), 0.0],
            }
            // the distance of centres is all that counts
            if odd_sizes && rng.chance(0.5) {
                let i = rng.below(3);
                x.size[i] = *rng.pick(&[0.0, 1e-300, 1e6, 1e300]);
            }
        }
        v
    };
    let (mut est, mut gt) = (make(rng, ne), make(rng, ng));
    for list in [&mut est, &mut gt] {
        if rng.chance(0.03) && !list.is_empty() {
            // one all over again
            let again = rng.pick(list).clone();
            list.push(again);
        }
    }
    o.census.frame(&est, &gt);
    let results = get_perception_results(&est, &gt);
    let pairs = pairs_of(&results, &est, &gt)?;
    let mut of_gt = vec![None; gt.len()];
    for (i, p) in pairs.iter().enumerate() {
        if let Some(j) = p {
            ensure!(
                est[i].label == gt[*j].label,
                "estimate {} is paired with {} of another label",
                brief(&est[i]),
                brief(&gt[*j])
            );
            ensure!(of_gt[*j].is_none(), "ground truth {} is used twice", brief(&gt[*j]));
            of_gt[*j] = Some(i);
        }
    }
    let mut competing = 0;
    for (i, e) in est.iter().enumerate() {
        for (j, g) in gt.iter().enumerate() {
            if e.label != g.label {
                continue;
            }
            let d = oracle::center_distance(e, g);
            let of_e = pairs[i].map_or(f64::INFINITY, |j| oracle::center_distance(e, &gt[j]));
            let of_g = of_gt[j].map_or(f64::INFINITY, |i: usize| oracle::center_distance(&est[i], g));
            let slack = 1e-9 * (1.0 + d);
            ensure!(
                !(d + slack < of_e && d + slack < of_g),
                "{} and {} are {} apart, but were paired at {} and {}: est={} gt={}",
                brief(e), brief(g), d, of_e, of_g, briefs(&est), briefs(&gt)
            );
            if pairs[i] != Some(j) && d < of_e {
                competing += 1;
            }
            o.hit("same_label_pairs_judged");
        }
    }
    let unique = oracle::pairing(&est, &gt);
    if let Some(expected) = &unique {
        ensure!(
            *expected == pairs,
            "pairs {:?} instead of {:?}: est={} gt={}",
            pairs, expected, briefs(&est), briefs(&gt)
        );
        o.hit("unique_pairings");
        for _ in 0..2 {
            let (mut e2, mut g2) = (est.clone(), gt.clone());
            rng.shuffle(&mut e2);
            rng.shuffle(&mut g2);
            let p2 = pairs_of(&get_perception_results(&e2, &g2), &e2, &g2)?;
            let named = |p: &[Option<usize>], e: &[DynamicObject], g: &[DynamicObject]| -> HashMap<(Key, Option<Key>), usize> {
                let mut map = HashMap::new();
                for (i, j) in p.iter().enumerate() {
                    *map.entry((key(&e[i]), j.map(|j| key(&g[j])))).or_insert(0) += 1;
                }
                map
            };
            let (a, b) = (named(&p2, &e2, &g2), named(&pairs, &est, &gt));
            ensure!(a == b, "the pairing depends on the order: est={} gt={} versus est={} gt={}", briefs(&est), briefs(&gt), briefs(&e2), briefs(&g2));
            o.hit("reorderings");
        }
    }
    o.add("contested", competing);
    o.nontrivial = competing > 0;
    o.shape((bucket(est.len()), bucket(gt.len()), labels.len(), kind, bucket(competing as usize), unique.is_some()));
    o.sample = Some(json!({"estimates": est.len(), "ground_truths": gt.len(), "kind": kind, "contested": competing, "pairs": pairs.iter().flatten().count()}));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P03

fn limit(rng: &mut Rng) -> f64 {
    match rng.below(8) {
        0 => 0.0,
        1 => 1e7,
        2 => rng.int(1, 100) as f64,
        3 => rng.int(1, 400) as f64 * 0.25,
        4 => f64::MAX,
        _ => rng.range(1.0, 80.0),
    }
}

/// A coordinate around a limit, often exactly on it or next to it.
fn around(rng: &mut Rng, limit: f64) -> f64 {
    let v = match rng.below(8) {
        0 => limit,
        1 => limit.next_down(),
        2 => limit.next_up(),
        3 => limit * rng.range(0.0, 1.0),
        4 => limit * rng.range(1.0, 2.0),
        5 => 0.0,
        _ => gen::coord(rng),
    };
    let v = if v.is_finite() { v } else { 0.0 };
    if rng.chance(0.5) {
        -v
    } else {
        v
    }
}

/// A number of points, also about where the widths of integers and floats end.
fn points(rng: &mut Rng) -> usize {
    let edge = match rng.below(9) {
        0 => 0,
        1 => 1 << 7,
        2 => 1 << 8,
        3 => 1 << 15,
        4 => 1 << 16,
        5 => 1 << 24,
        6 => 1 << 31,
        7 => 1 << 32,
        _ => 1 << 53,
    };
    match rng.below(8) {
        0 => usize::MAX,
        1 => edge * (2 + rng.below(1000)),
        _ => (edge + rng.below(40)).saturating_sub(rng.below(40)),
    }
}

fn filter_settings(rng: &mut Rng) -> Settings {
    let n = 1 + rng.below(5);
    let mut s = Settings::wide(rng, n);
    if rng.chance(0.2) {
        let i = rng.below(s.targets.len());
        s.targets.push(s.targets[i].clone());
        s.names.push(s.names[i].clone());
    }
    s.max_x = limit(rng);
    s.max_y = if rng.chance(0.3) { s.max_x } else { limit(rng) };
    s.min_points = match rng.below(4) {
        0 => None,
        1 => Some(0),
        2 => Some(1),
        _ if rng.chance(0.15) => Some(points(rng)),
        _ => Some(rng.below(20)),
    };
    s.uuids = match rng.below(4) {
        0 => Some(vec![]),
        1 => Some((0..if rng.chance(0.1) { 10 + rng.below(290) } else { 1 + rng.below(5) }).map(|_| match rng.below(10) {
            0 => rng.pick(&["", "a", "A", " ", "None"]).to_string(),
            1 => gen::uuid(rng).to_uppercase(),
            _ => gen::uuid(rng),
        }).collect()),
        _ => None,
    };
    s
}

fn fit_object(rng: &mut Rng, s: &Settings) -> DynamicObject {
    let label = if rng.chance(0.75) { rng.pick(&s.targets).clone() } else { rng.pick(&LABELS).clone() };
    let mut x = gen::object(rng, label);
    x.position = [around(rng, s.max_x), around(rng, s.max_y), gen::coord(rng)];
    if rng.chance(0.4) {
        // well inside
        x.position[0] = s.max_x.min(1e6) * rng.range(-0.9, 0.9);
    }
    if rng.chance(0.4) {
        x.position[1] = s.max_y.min(1e6) * rng.range(-0.9, 0.9);
    }
    let min = s.min_points.unwrap_or(5);
    x.pointcloud_num = match rng.below(6) {
        0 => None,
        1 => Some(min),
        2 => Some(min.saturating_sub(1)),
        3 => Some(min.saturating_add(1)),
        4 => Some(0),
        _ if rng.chance(0.3) => Some(points(rng)),
        _ => Some(rng.below(1000)),
    };
    x.uuid = match (&s.uuids, rng.below(5)) {
        (_, 0) => None,
        (Some(list), 1..=3) if !list.is_empty() => {
            let id = rng.pick(list).clone();
            Some(match rng.below(12) {
                0 => id.to_uppercase(),
                1 => format!(" {}", id),
                2 => format!("{}\n", id),
                3 => id[..id.len() / 2].to_string(),
                4 => format!("{}0", id),
                5 => String::new(),
                _ => id,
            })
        }
        _ => Some(gen::uuid(rng)),
    };
    x
}

pub fn p03(rng: &mut Rng, _env: &Env, o: &mut Obs) -> Verdict {
    let s = filter_settings(rng);
    let params = s.filter()?;
    let n = match rng.below(10) {
        0 => 0,
        1 => 200,
        2 if rng.below(60) == 0 => 1000 + rng.below(4000),
        _ => 1 + rng.below(30),
    };
    let objects: Vec<DynamicObject> = (0..n).map(|_| fit_object(rng, &s)).collect();
    o.census.objects(&objects);
    for is_gt in [true, false] {
        let out = filter_objects(&objects, is_gt, &params);
        let expected: Vec<&DynamicObject> = objects.iter().filter(|x| s.keeps(x, is_gt)).collect();
        let same = out.len() == expected.len() && out.iter().zip(&expected).all(|(a, b)| gen::same(a, b));
        if !same {
            let wrong = objects.iter().find(|x| {
                let n_in = objects.iter().filter(|y| gen::same(x, y)).count();
                let n_out = out.iter().filter(|y| gen::same(x, y)).count();
                n_out != if s.keeps(x, is_gt) { n_in } else { 0 }
            });
            return Err(format!(
                "filtering (ground truths: {}) with {:?} kept {} of {} objects instead of {}; {}",
                is_gt,
                s,
                out.len(),
                objects.len(),
                expected.len(),
                match wrong {
                    Some(x) => format!("wrong for {} which {} be kept", brief(x), if s.keeps(x, is_gt) { "must" } else { "must not" }),
                    None => format!("order or content differ: in={} out={}", briefs(&objects), briefs(&out)),
                }
            ));
        }
        o.add("kept", out.len() as u64);
        o.add("dropped", (n - out.len()) as u64);
        for x in &objects {
            if s.targets.contains(&x.label) {
                if x.position[0].abs() == s.max_x || x.position[1].abs() == s.max_y {
                    o.hit("on_the_limit");
                }
                if is_gt && s.min_points.is_some() && x.pointcloud_num == s.min_points {
                    o.hit("exactly_min_points");
                }
            }
        }
        o.nontrivial |= !out.is_empty() && out.len() < n;
        o.shape((bucket(n), bucket(out.len()), s.min_points.is_some(), s.uuids.as_ref().map(|u| u.len()), s.targets.len(), is_gt));
    }
    o.sample = Some(json!({"settings": format!("{:?}", s), "objects": n}));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P04

pub fn p04(rng: &mut Rng, _env: &Env, o: &mut Obs) -> Verdict {
    let mode = rng.pick(&MODES).clone();
    let distance = matches!(mode, MatchingMode::CenterDistance | MatchingMode::PlaneDistance);
    let n_targets = 1 + rng.below(5);
    let mut targets = LABELS.to_vec();
    rng.shuffle(&mut targets);
    let foreign = targets.split_off(n_targets);
    let exact = mode == MatchingMode::CenterDistance && rng.chance(0.4);
    let mut thresholds: Vec<f64> = targets
        .iter()
        .map(|_| {
            if exact {
                5.0 * (1 << rng.below(3)) as f64 / 4.0
            } else if distance {
                rng.range(0.2, 5.0)
            } else {
                *rng.pick(&[0.0, 0.1, 0.25, 0.5, 0.75])
            }
        })
        .collect();
    if rng.chance(0.15) {
        let i = rng.below(targets.len());
        targets.push(targets[i].clone());
        thresholds.push(thresholds[i]);
    }
    let timestamp = gen::time_us(rng.int(0, 1 << 50));
    let mut gts: Vec<DynamicObject> = Vec::new();
    let mut results: Vec<PerceptionResult> = Vec::new();
    let n = match rng.below(400) {
        0 => 100 + rng.below(400),
        1..=8 => 14 + rng.below(90),
        _ => rng.below(14),
    };
    let area = *rng.pick(&[2.0, 40.0, 40.0, 40.0, 40.0, 40.0, 300.0, 2e4]);
    for _ in 0..n {
        // ground truths mostly carry target labels, as after filtering
        let k = rng.below(targets.len());
        let mut gt = gen::object(rng, targets[k].clone());
        if rng.chance(0.7) {
            gt.timestamp = timestamp;
        }
        gt.position = if exact {
            [0, 1, 2].map(|_| rng.int(-40, 40) as f64 * 0.25)
        } else {
            [rng.range(-area, area), rng.range(-area, area), rng.range(-1.0, 1.0)]
        };
        if rng.chance(0.05) && !exact {
            gt.position[rng.below(3)] = 0.0;
        }
        gt.orientation = if distance && rng.chance(0.2) { gen::quat(rng) } else { gen::upright(rng) };
        // the same object again, or another instance at the same place
        let copies = if rng.chance(0.15) { 2 } else { 1 };
        for c in 0..copies {
            let mut g = gt.clone();
            if c == 1 && rng.chance(0.7) {
                g = gen::sibling(rng, &gt);
            }
            // pairs of different labels: only that of the estimate counts
            if rng.chance(0.1) {
                let own = foreign.is_empty() || rng.chance(0.5);
                g.label = rng.pick(if own { &targets } else { &foreign }).clone();
            }
            if rng.chance(0.75) {
                let reach = if distance { thresholds[k] } else { 1.5 };
                let mut e = gen::estimate_of(rng, &g, reach, distance);
                if exact {
                    let s = thresholds[k] / 5.0 * *rng.pick(&[1.0, 1.0, 0.5, 2.0]);
                    let step = rng.pick(&[[3.0, 4.0, 0.0], [-4.0, 0.0, 3.0], [0.0, 5.0, 0.0], [3.0, 3.0, 3.0]]).map(|v| v * s);
                    e.position = add(&g.position, &step);
                }
                e.confidence = if rng.chance(0.1) { gen::special(rng) } else { rng.f() };
                e.label = targets[k].clone();
                if !foreign.is_empty() && rng.chance(0.03) {
                    e.label = rng.pick(&foreign).clone();
                }
                results.push(PerceptionResult::new(e, Some(g.clone())));
            }
            gts.push(g);
        }
    }
    for _ in 0..rng.below(6) {
        // unpaired estimates, also of labels that are no target
        let label = if rng.chance(0.6) || foreign.is_empty() { rng.pick(&targets).clone() } else { rng.pick(&foreign).clone() };
        let mut e = gen::object(rng, label.clone());
        if rng.chance(0.2) {
            e.uuid = None;
        }
        let paired = if !targets.contains(&label) && rng.chance(0.5) {
            // a pair of another label stays out of the frame's report altogether
            let mut g = e.clone();
            g.uuid = Some(gen::uuid(rng));
            Some(g)
        } else {
            None
        };
        // the same once more, or nearly
        while rng.chance(0.2) {
            let twin = if rng.chance(0.5) { e.clone() } else { gen::sibling(rng, &e) };
            results.push(PerceptionResult::new(twin, paired.clone()));
            o.hit("repeated_estimates");
        }
        results.push(PerceptionResult::new(e, paired));
    }
    rng.shuffle(&mut gts);
    rng.shuffle(&mut results);

    let frame_gt = FrameGroundTruth { timestamp, objects: gts.clone() };
    let frame = PerceptionFrameResult::new(results.clone(), frame_gt, &targets, mode.clone(), &thresholds)
        .map_err(|e| format!("PerceptionFrameResult::new failed: {:?}", e))?;

    if o.census.on {
        let est: Vec<_> = results.iter().map(|r| r.estimated_object.clone()).collect();
        o.census.frame(&est, &gts);
        results.iter().take(12).for_each(|r| r.ground_truth_object.iter().for_each(|g| o.census.pair(&r.estimated_object, g)));
    }
    let context = || {
        format!(
            "mode={:?} targets={:?} thresholds={:?} gts={} results={:?}",
            mode,
            targets,
            thresholds,
            briefs(&gts),
            results.iter().map(|r| format!("({} -> {})", brief(&r.estimated_object), r.ground_truth_object.as_ref().map(brief).unwrap_or_default())).collect::<Vec<_>>()
        )
    };
    let rkey = |r: &PerceptionResult| (key(&r.estimated_object), r.ground_truth_object.as_ref().map(key));
    // kept as given
    ensure!(
        frame.results().len() == results.len() && frame.results().iter().zip(&results).all(|(a, b)| rkey(a) == rkey(b)),
        "the results of the frame are not those given: {}", context()
    );
    let kept = frame.frame_ground_truth();
    ensure!(
        kept.timestamp == timestamp && kept.objects.len() == gts.len() && kept.objects.iter().zip(&gts).all(|(a, b)| gen::same(a, b)),
        "the ground truths of the frame are not those given: {}", context()
    );
    // exactly one of hit and false alarm
    type Expected<'r> = HashMap<(Key, Option<Key>), Vec<(Option<bool>, &'r PerceptionResult)>>;
    let mut expected: Expected = HashMap::new();
    for r in &results {
        let e = &r.estimated_object;
        if let Some(i) = targets.iter().position(|t| *t == e.label) {
            expected.entry(rkey(r)).or_default().push((oracle::beats(&mode, e, r.ground_truth_object.as_ref(), thresholds[i]), r));
        }
    }
    let (mut n_tp, mut n_fp) = (0, 0);
    for (list, is_tp) in [(frame.tp_results(), true), (frame.fp_results(), false)] {
        for r in list {
            let what = if is_tp { "true" } else { "false" };
            let (want, _) = expected.get_mut(&rkey(r)).and_then(|list| list.pop()).ok_or_else(|| {
                format!("{} is reported as {} positive but is no result of a target label, has another ground truth or is reported twice: {}", brief(&r.estimated_object), what, context())
            })?;
            match want {
                Some(w) => ensure!(w == is_tp, "{} -> {} is reported as {} positive: {}", brief(&r.estimated_object), r.ground_truth_object.as_ref().map(brief).unwrap_or_default(), what, context()),
                None => o.hit("left_open"),
            }
            if is_tp { n_tp += 1 } else { n_fp += 1 }
        }
    }
    expected.retain(|_, list| !list.is_empty());
    ensure!(expected.is_empty(), "{} results are reported neither as true nor as false positive: {}", expected.len(), context());
    // misses
    let mut missed = multiset(gts.iter());
    for r in frame.tp_results() {
        if let Some(g) = &r.ground_truth_object {
            *missed.entry(key(g)).or_insert(0) -= 1;
        }
    }
    missed.retain(|_, n| *n != 0);
    let reported = multiset(frame.fn_objects().iter());
    ensure!(missed == reported, "missed are {:?} but reported are {}: {}", missed.keys().map(|k| &k.8).collect::<Vec<_>>(), briefs(frame.fn_objects()), context());
    ensure!(n_tp + frame.fn_objects().len() == gts.len(), "{} true positives and {} misses of {} ground truths: {}", n_tp, frame.fn_objects().len(), gts.len(), context());

    o.add("true_positives", n_tp as u64);
    o.add("false_positives", n_fp as u64);
    o.add("misses", frame.fn_objects().len() as u64);
    o.add("ignored", (results.len() - n_tp - n_fp) as u64);
    if exact {
        o.hit("exact_thresholds");
    }
    o.nontrivial = n_tp > 0 && n_fp > 0;
    o.shape((format!("{:?}", mode), bucket(n_tp), bucket(n_fp), bucket(frame.fn_objects().len()), targets.len(), exact));
    o.sample = Some(json!({"mode": format!("{:?}", mode), "targets": format!("{:?}", targets), "thresholds": thresholds, "results": results.len(), "tp": n_tp, "fp": n_fp, "fn": frame.fn_objects().len()}));
    Ok(())
}

// ------------------------------------------------------------------------------- P05, P06

/// Smallest and largest admissible AP and APH of a label; None if a hit is too close to call.
fn expected_scores(
    frames: &[PerceptionFrameResult],
    label: &Label,
    mode: &MatchingMode,
    threshold: f64,
) -> Option<((f64, f64), (f64, f64), usize, usize)> {
    let mut plain = Vec::new();
    let mut heading = Vec::new();
    let mut num_gt = 0;
    for f in frames {
        num_gt += f.frame_ground_truth().objects.iter().filter(|g| g.label == *label).count();
        for r in f.results() {
            let e = &r.estimated_object;
            if e.label != *label {
                continue;
            }
            let hit = oracle::beats(mode, e, r.ground_truth_object.as_ref(), threshold)?;
            let gt = r.ground_truth_object.as_ref();
            plain.push((e.confidence, if hit { 1.0 } else { 0.0 }));
            heading.push((e.confidence, if hit { oracle::heading_value(e, gt.unwrap()) } else { 0.0 }));
        }
    }
    let hits = plain.iter().filter(|p| p.1 > 0.0).count();
    Some((
        oracle::average_precision(&plain, num_gt),
        oracle::average_precision(&heading, num_gt),
        hits,
        num_gt,
    ))
}

fn within(v: f64, bounds: (f64, f64), tol: f64) -> bool {
    (v.is_nan() && bounds.0.is_nan()) || (v >= bounds.0 - tol && v <= bounds.1 + tol)
}

/// Compares every reported value with the oracle.
fn judge_scores(
    m: &PerceptionEvaluationManager,
    s: &Settings,
    o: &mut Obs,
    ap: bool,
    aph: bool,
) -> Result<Vec<Section>, String> {
    let sections = scores(m)?;
    if o.census.on {
        for frame in m.frame_results.iter().take(4) {
            let est: Vec<_> = frame.results().iter().map(|r| r.estimated_object.clone()).collect();
            o.census.frame(&est, &frame.frame_ground_truth().objects);
            for r in frame.results().iter().take(12) {
                r.ground_truth_object.iter().for_each(|g| o.census.pair(&r.estimated_object, g));
            }
        }
    }
    for (mode, threshold) in [
        (MatchingMode::CenterDistance, s.center),
        (MatchingMode::PlaneDistance, s.plane),
    ] {
        let sec = section(&sections, &mode)?;
        ensure!(sec.labels.len() == s.targets.len(), "{} labels in {:?} for {:?}", sec.labels.len(), sec, s.targets);
        for (i, label) in s.targets.iter().enumerate() {
            let (e_ap, e_aph, hits, num_gt) =
                match expected_scores(&m.frame_results, label, &mode, threshold) {
                    Some(e) => e,
                    None => {
                        o.hit("left_open");
                        continue;
                    }
                };
            let context = || -> String {
                let rows: Vec<String> = m
                    .frame_results
                    .iter()
                    .enumerate()
                    .flat_map(|(f, fr)| fr.results().iter().map(move |r| (f, r)))
                    .filter(|(_, r)| r.estimated_object.label == *label)
                    .take(40)
                    .map(|(f, r)| format!("(frame {} conf {:?} q {:?} at {:?} -> {:?})", f, r.estimated_object.confidence, r.estimated_object.orientation, r.estimated_object.position, r.ground_truth_object.as_ref().map(|g| (g.position, g.orientation))))
                    .collect();
                format!("{} {:?} threshold {} with {} hits, {} ground truths in {} frames: {}", label, mode, threshold, hits, num_gt, m.frame_results.len(), rows.join(" "))
            };
            if ap {
                ensure!(within(sec.ap[i], e_ap, sec.tol), "AP is {} instead of {:?}: {}", sec.ap[i], e_ap, context());
            }
            if aph {
                ensure!(within(sec.aph[i], e_aph, sec.tol), "APH is {} instead of {:?}: {}", sec.aph[i], e_aph, context());
                ensure!(
                    sec.ap[i].is_nan() == sec.aph[i].is_nan() && !(sec.aph[i] > sec.ap[i] + 2.0 * sec.tol),
                    "APH {} exceeds AP {}: {}", sec.aph[i], sec.ap[i], context()
                );
            }
            o.hit("values_judged");
            o.add("hits_ranked", hits as u64);
            if sec.tol < 1e-6 {
                o.hit("exact_values");
            }
            if sec.ap[i].is_nan() {
                o.hit("nan_values");
            }
            if e_ap.0 > 0.0 && e_ap.1 < 1.0 {
                o.nontrivial = true;
                o.hit("between_0_and_1");
                o.shape(((e_ap.0 * 1e6) as i64, (e_aph.0 * 1e6) as i64, hits, num_gt));
            }
        }
    }
    Ok(sections)
}

/// Settings and a history, in rare cases with very many labels or results.
fn broad_history(rng: &mut Rng, o: &mut Obs, n: usize, p: &mut HistoryParams) -> (Settings, Vec<FrameIn>) {
    let mut s = Settings::wide(rng, n);
    match rng.below(8_000) {
        0 => {
            let frames = 1 + rng.below(80);
            let alarms = 65_540 + rng.below(8_000);
            p.frames = frames;
            o.hit("giant_histories");
            let frames = gen::flood(rng, &s, frames, alarms);
            return (s, frames);
        }
        1..=50 => {
            let frames = if rng.chance(0.5) { 1 } else { 1 + rng.below(4) };
            let alarms = 1_000 + rng.below(6_000);
            p.frames = frames;
            o.hit("floods_of_false_alarms");
            let frames = gen::flood(rng, &s, frames, alarms);
            return (s, frames);
        }
        51..=130 => {
            let n = 9 + rng.below(292);
            s.lengthen(rng, n);
            p.frames = p.frames.min(4);
            p.per_label = p.per_label.min(6);
            o.hit("long_label_lists");
            let mut few = s.clone();
            few.targets.truncate(n.min(8));
            few.targets.sort_by_key(|l| l.clone() as u8);
            few.targets.dedup();
            return (s, gen::history(rng, &few, p));
        }
        _ => {}
    }
    let frames = gen::history(rng, &s, p);
    (s, frames)
}

pub fn p05(rng: &mut Rng, _env: &Env, o: &mut Obs) -> Verdict {
    let n = 1 + rng.below(4);
    let mut p = HistoryParams::draw(rng);
    let (s, frames) = broad_history(rng, o, n, &mut p);
    let config = s.config()?;
    let mut m = manager(&config);
    feed(&mut m, &frames)?;
    judge_scores(&m, &s, o, true, false)?;

    // the same results in one frame, in another order of frames
    if rng.chance(0.5) && !m.frame_results.is_empty() {
        let mut other = manager(&config);
        if rng.chance(0.5) {
            let results: Vec<PerceptionResult> = m.frame_results.iter().flat_map(|f| f.results().clone()).collect();
            let objects: Vec<DynamicObject> = m.frame_results.iter().flat_map(|f| f.frame_ground_truth().objects.clone()).collect();
            let gt = FrameGroundTruth { timestamp: gen::time_us(1), objects };
            let thresholds = vec![s.plane; s.targets.len()];
            let merged = PerceptionFrameResult::new(results, gt, &s.targets, MatchingMode::PlaneDistance, &thresholds)
                .map_err(|e| format!("PerceptionFrameResult::new failed: {:?}", e))?;
            other.frame_results.push(merged);
            o.hit("merged_into_one_frame");
        } else {
            other.frame_results = m.frame_results.clone();
            rng.shuffle(&mut other.frame_results);
            o.hit("frames_reordered");
        }
        judge_scores(&other, &s, o, true, false)?;
    }
    o.add("frames", p.frames as u64);
    o.sample = Some(json!({"targets": s.names, "frames": p.frames, "per_label": p.per_label, "confidence": format!("{:?}", p.confidence)}));
    Ok(())
}

pub fn p06(rng: &mut Rng, _env: &Env, o: &mut Obs) -> Verdict {
    let n = if rng.chance(0.1) { 8 } else { 1 + rng.below(3) };
    let mut p = HistoryParams::draw(rng);
    p.frames = p.frames.clamp(1, 12);
    let most = if rng.chance(0.03) { 60 } else { 12 };
    p.per_label = p.per_label.clamp(1, most);
    let (s, mut frames) = broad_history(rng, o, n, &mut p);
    // directed headings: all equal, all opposite, across the wrap, or as generated
    let kind = rng.below(5);
    for f in &mut frames {
        let gts = f.gt.objects.clone();
        for e in &mut f.est {
            // the ground truth that it will be paired with is nearest: turn relative to it
            let near = gts
                .iter()
                .filter(|g| g.label == e.label)
                .min_by(|a, b| oracle::center_distance(e, a).total_cmp(&oracle::center_distance(e, b)));
            let base = near.map_or(0.0, |g| oracle::yaw_of(&g.orientation));
            match kind {
                0 => e.orientation = oracle::q_yaw(base),
                1 => e.orientation = oracle::q_yaw(base + PI),
                _ => {}
            }
        }
        if kind == 2 {
            for g in f.gt.objects.iter_mut().chain(f.est.iter_mut()) {
                let a = rng.range(-0.6, 0.6);
                g.orientation = oracle::q_yaw(PI + a);
                if rng.chance(0.3) {
                    g.orientation = g.orientation.map(|x| -x);
                }
            }
        }
    }
    let config = s.config()?;
    let mut m = manager(&config);
    feed(&mut m, &frames)?;
    let sections = judge_scores(&m, &s, o, false, true)?;

    // what the pairs turned out to be
    for (mode, threshold) in [(MatchingMode::CenterDistance, s.center), (MatchingMode::PlaneDistance, s.plane)] {
        let sec = section(&sections, &mode)?;
        for (i, label) in s.targets.iter().enumerate() {
            let mut all_equal = true;
            let mut all_opposite = true;
            let mut hits = 0;
            let mut open = false;
            for f in &m.frame_results {
                for r in f.results().iter().filter(|r| r.estimated_object.label == *label) {
                    match oracle::beats(&mode, &r.estimated_object, r.ground_truth_object.as_ref(), threshold) {
                        None => open = true,
                        Some(true) => {
                            let v = oracle::heading_value(&r.estimated_object, r.ground_truth_object.as_ref().unwrap());
                            all_equal &= v > 1.0 - 1e-12;
                            all_opposite &= v < 1e-12;
                            hits += 1;
                            o.shape(((v * 24.0) as i64, (oracle::yaw_of(&r.estimated_object.orientation) * 4.0) as i64, "heading"));
                        }
                        Some(false) => {}
                    }
                }
            }
            if open || hits == 0 {
                continue;
            }
            if all_equal {
                ensure!(close(sec.ap[i], sec.aph[i], 1e-6 + sec.tol), "all headings agree, but APH {} is not AP {} ({} {:?})", sec.aph[i], sec.ap[i], label, mode);
                o.hit("all_agree");
            }
            if all_opposite {
                ensure!(close(sec.aph[i], 0.0, 1e-6 + sec.tol), "all headings are opposite, but APH is {} ({} {:?})", sec.aph[i], label, mode);
                o.hit("all_opposite");
            }
        }
    }
    o.sample = Some(json!({"targets": s.names, "frames": p.frames, "kind": kind}));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P07

fn run(s: &Settings, frames: &[FrameIn]) -> Result<Vec<Section>, String> {
    let config = s.config()?;
    let mut m = manager(&config);
    feed(&mut m, frames)?;
    scores(&m)
}

pub fn describe(s: &Settings, frames: &[FrameIn]) -> String {
    let mut text = format!("settings {:?}", s);
    for (i, f) in frames.iter().take(6).enumerate() {
        text += &format!("\n frame {}: est={} gt={}", i, briefs(&f.est), briefs(&f.gt.objects));
    }
    text
}

pub fn equal_sections(a: &[Section], b: &[Section]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            let tol = 2.0 * x.tol.max(y.tol);
            x.mode == y.mode
                && x.labels == y.labels
                && x.ap.len() == y.ap.len()
                && x.ap.iter().zip(&y.ap).all(|(p, q)| close(*p, *q, tol))
                && x.aph.iter().zip(&y.aph).all(|(p, q)| close(*p, *q, tol))
        })
}

pub fn show(sections: &[Section]) -> String {
    sections
        .iter()
        .map(|s| format!("{}: {:?} AP={:?} APH={:?}", s.mode, s.labels, s.ap, s.aph))
        .collect::<Vec<_>>()
        .join("; ")
}

/// Distinct confidences per label and unique pairings in every frame.
fn is_generic(s: &Settings, frames: &[FrameIn]) -> bool {
    for label in &s.targets {
        let mut conf: Vec<f64> = frames
            .iter()
            .flat_map(|f| f.est.iter())
            .filter(|e| e.label == *label)
            .map(|e| e.confidence)
            .collect();
        conf.sort_by(f64::total_cmp);
        if conf.windows(2).any(|w| w[0] == w[1]) {
            return false;
        }
    }
    frames.iter().all(|f| oracle::pairing(&f.est, &f.gt.objects).is_some())
}

pub fn p07(rng: &mut Rng, _env: &Env, o: &mut Obs) -> Verdict {
    let n = 1 + rng.below(4);
    let mut p = HistoryParams::draw(rng);
    if rng.chance(0.7) {
        p.frames = p.frames.min(8);
    }
    let (s, frames) = broad_history(rng, o, n, &mut p);
    let generic = is_generic(&s, &frames);
    let base = run(&s, &frames).map_err(|e| format!("{}: {}", e, describe(&s, &frames)))?;
    let fail = |what: &str, other: &[Section]| {
        format!("{}: {} versus {}: {}", what, show(&base), show(other), describe(&s, &frames))
    };

    // ranges and NaN
    for sec in &base {
        for (i, label) in s.targets.iter().enumerate() {
            let any_est = frames.iter().any(|f| f.est.iter().any(|e| e.label == *label));
            let any_gt = frames.iter().any(|f| f.gt.objects.iter().any(|g| g.label == *label));
            for v in [sec.ap[i], sec.aph[i]] {
                if any_est || any_gt {
                    ensure!((-1e-9..=1.0 + 1e-9).contains(&v), "score {} of {} is not in [0, 1]: {}", v, label, fail("range", &[]));
                } else {
                    ensure!(v.is_nan(), "score {} of {} without results and ground truths is not NaN: {}", v, label, fail("nan", &[]));
                    o.hit("nan");
                }
                if any_gt && !any_est {
                    ensure!(v.abs() <= sec.tol, "score {} of {} with ground truths but no estimates is not 0: {}", v, label, fail("none", &[]));
                    o.hit("no_estimates");
                }
                o.hit("values_judged");
                if v > 0.0 && v < 1.0 {
                    o.nontrivial = true;
                    o.shape(((v * 1e6) as i64, frames.len()));
                }
            }
        }
    }

    // reading the scores at any moment changes nothing
    {
        let config = s.config()?;
        let mut m = manager(&config);
        for f in &frames {
            feed(&mut m, std::slice::from_ref(f))?;
            if rng.chance(0.5) {
                let a = scores(&m)?;
                let b = scores(&m)?;
                ensure!(equal_sections(&a, &b), "two reads differ: {} and {}: {}", show(&a), show(&b), describe(&s, &frames));
                o.hit("reads_in_between");
            }
        }
        let held = m.get_metrics_score().map_err(|e| format!("get_metrics_score failed: {}", e))?;
        for _ in 0..2 {
            let c = scores(&m)?;
            ensure!(equal_sections(&base, &c), "{}", fail("reading in between changed the scores", &c));
        }
        // a score that was read stays what it was
        if let Some(f) = frames.first() {
            feed(&mut m, std::slice::from_ref(f))?;
            let h = report::observe(&held)?;
            ensure!(equal_sections(&base, &h), "{}", fail("a score changed after it was read", &h));
        }
    }

    if generic {
        o.hit("generic_histories");
        // order of frames and objects
        let mut other = frames.clone();
        rng.shuffle(&mut other);
        for f in &mut other {
            rng.shuffle(&mut f.est);
            rng.shuffle(&mut f.gt.objects);
        }
        let b = run(&s, &other)?;
        ensure!(equal_sections(&base, &b), "{}", fail("the order of frames and objects matters", &b));
        o.hit("reorderings");

        // one more false alarm below all others
        if !frames.is_empty() {
            let mut more = frames.clone();
            let k = rng.below(s.targets.len());
            let mut e = gen::object(rng, s.targets[k].clone());
            let lowest = frames.iter().flat_map(|f| f.est.iter()).map(|e| e.confidence).fold(0.0, f64::min);
            e.confidence = lowest - 1.0;
            e.position = [9e3, 9e3, 0.0];
            e.orientation = [1.0, 0.0, 0.0, 0.0];
            let at = rng.below(more.len());
            let pos = rng.below(more[at].est.len() + 1);
            more[at].est.insert(pos, e);
            let b = run(&s, &more)?;
            for (x, y) in base.iter().zip(&b) {
                for i in 0..s.targets.len() {
                    for (old, new) in [(x.ap[i], y.ap[i]), (x.aph[i], y.aph[i])] {
                        if s.targets[i] != s.targets[k] {
                            ensure!(close(old, new, 2.0 * x.tol.max(y.tol)), "{}", fail("a false alarm of another label changed a score", &b));
                        } else if !old.is_nan() {
                            ensure!(new <= old + 2.0 * x.tol.max(y.tol), "{}", fail("a false alarm below all others raised a score", &b));
                        } else {
                            ensure!(new.abs() <= y.tol, "{}", fail("a lone false alarm does not score 0", &b));
                        }
                    }
                }
            }
            o.hit("false_alarms_added");
        }

        // a target listed twice
        {
            let mut twice = s.clone();
            let i = rng.below(s.targets.len());
            let at = rng.below(s.targets.len() + 1);
            twice.targets.insert(at, s.targets[i].clone());
            twice.names.insert(at, s.names[i].clone());
            let b = run(&twice, &frames)?;
            for (x, y) in base.iter().zip(&b) {
                ensure!(y.labels.len() == twice.targets.len(), "{}", fail("labels are missing", &b));
                for (j, label) in twice.targets.iter().enumerate() {
                    let i = s.targets.iter().position(|l| l == label).unwrap();
                    let tol = 2.0 * x.tol.max(y.tol);
                    ensure!(close(x.ap[i], y.ap[j], tol) && close(x.aph[i], y.aph[j], tol), "{}", fail("listing a label twice changed a score", &b));
                }
            }
            o.hit("labels_listed_twice");
        }
    }

    // perfect detection
    {
        let mut perfect = frames.clone();
        for f in &mut perfect {
            f.gt.objects.retain(|g| s.targets.contains(&g.label));
            // two at the same place could swap their partners
            let mut apart: Vec<DynamicObject> = Vec::new();
            for g in &f.gt.objects {
                if apart.iter().all(|x| x.label != g.label || oracle::center_distance(x, g) > 1e-6) {
                    apart.push(g.clone());
                }
            }
            f.gt.objects = apart;
            // ambiguous nearest sides are fine: both boxes are the same
            f.est = f
                .gt
                .objects
                .iter()
                .map(|g| {
                    let mut e = g.clone();
                    e.uuid = None;
                    e.confidence = rng.f();
                    e
                })
                .collect();
            rng.shuffle(&mut f.est);
        }
        let b = run(&s, &perfect)?;
        for sec in &b {
            for (i, label) in s.targets.iter().enumerate() {
                let any = perfect.iter().any(|f| f.gt.objects.iter().any(|g| g.label == *label));
                for v in [sec.ap[i], sec.aph[i]] {
                    if any {
                        ensure!(close(v, 1.0, sec.tol + 1e-6), "perfect detection of {} scores {}: {}", label, v, describe(&s, &perfect));
                        o.hit("perfect");
                    } else {
                        ensure!(v.is_nan(), "nothing to detect of {}, but it scores {}: {}", label, v, describe(&s, &perfect));
                    }
                }
            }
        }
    }
    o.add("frames", frames.len() as u64);
    o.sample = Some(json!({"targets": s.names, "frames": frames.len(), "scores": show(&base)}));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P08

/// What a frame result holds, comparable.
pub type Snapshot = (
    Vec<(Key, Option<Key>)>,
    String,
    Vec<Key>,
    Vec<(Key, Option<Key>)>,
    Vec<(Key, Option<Key>)>,
    Vec<Key>,
);

pub fn snapshot(f: &PerceptionFrameResult) -> Snapshot {
    let rs = |v: &Vec<PerceptionResult>| {
        v.iter().map(|r| (key(&r.estimated_object), r.ground_truth_object.as_ref().map(key))).collect()
    };
    (
        rs(f.results()),
        format!("{:?}", f.frame_ground_truth().timestamp),
        f.frame_ground_truth().objects.iter().map(key).collect(),
        rs(f.tp_results()),
        rs(f.fp_results()),
        f.fn_objects().iter().map(key).collect(),
    )
}

/// Checks one frame result against filtering, pairing and classifying the input.
pub fn judge_frame(s: &Settings, input: &FrameIn, frame: &PerceptionFrameResult, o: &mut Obs) -> Verdict {
    let context = || {
        format!(
            "settings {:?} est={} gt={} at {:?}; frame has {} results, {} TP, {} FP, {} FN",
            s,
            briefs(&input.est),
            briefs(&input.gt.objects),
            input.gt.timestamp,
            frame.results().len(),
            frame.tp_results().len(),
            frame.fp_results().len(),
            frame.fn_objects().len()
        )
    };
    o.census.frame(&input.est, &input.gt.objects);
    let est: Vec<DynamicObject> = input.est.iter().filter(|e| s.keeps(e, false)).cloned().collect();
    let gt: Vec<DynamicObject> = input.gt.objects.iter().filter(|g| s.keeps(g, true)).cloned().collect();
    let kept = frame.frame_ground_truth();
    ensure!(kept.timestamp == input.gt.timestamp, "the timestamp is {:?}: {}", kept.timestamp, context());
    ensure!(
        kept.objects.len() == gt.len() && kept.objects.iter().zip(&gt).all(|(a, b)| gen::same(a, b)),
        "the ground truths are {} instead of {}: {}", briefs(&kept.objects), briefs(&gt), context()
    );
    ensure!(
        multiset(frame.results().iter().map(|r| &r.estimated_object)) == multiset(est.iter()),
        "the results are not those of the filtered estimates {}: {}", briefs(&est), context()
    );
    o.add("estimates", est.len() as u64);
    o.add("estimates_dropped", (input.est.len() - est.len()) as u64);
    o.add("ground_truths", gt.len() as u64);
    o.add("ground_truths_dropped", (input.gt.objects.len() - gt.len()) as u64);
    let pairing = match oracle::pairing(&est, &gt) {
        Some(p) => p,
        None => {
            o.hit("left_open_pairing");
            return Ok(());
        }
    };
    let observed = pairs_of(frame.results(), &est, &gt).map_err(|e| format!("{}: {}", e, context()))?;
    ensure!(observed == pairing, "pairs {:?} instead of {:?}: {}", observed, pairing, context());
    let (tp, fp) = (frame.tp_results(), frame.fp_results());
    ensure!(tp.len() + fp.len() == est.len(), "{} TP and {} FP of {} results: {}", tp.len(), fp.len(), est.len(), context());
    let mut split: HashMap<Key, (i64, i64)> = HashMap::new();
    tp.iter().for_each(|r| split.entry(key(&r.estimated_object)).or_default().0 += 1);
    fp.iter().for_each(|r| split.entry(key(&r.estimated_object)).or_default().1 += 1);
    let mut open: HashMap<Key, i64> = HashMap::new();
    for (i, e) in est.iter().enumerate() {
        let g = pairing[i].map(|j| &gt[j]);
        let count = split.entry(key(e)).or_default();
        match oracle::beats(&MatchingMode::PlaneDistance, e, g, s.plane) {
            Some(true) => {
                count.0 -= 1;
                o.hit("true_positives");
            }
            Some(false) => {
                count.1 -= 1;
                o.hit("false_positives");
            }
            None => {
                *open.entry(key(e)).or_insert(0) += 1;
                o.hit("left_open");
            }
        }
    }
    for e in &est {
        let (t, f) = split[&key(e)];
        let free = open.get(&key(e)).copied().unwrap_or(0);
        ensure!(
            t >= 0 && f >= 0 && t + f == free,
            "{} is {} times too often TP and {} times too often FP: {}", brief(e), t, f, context()
        );
    }
    let mut missed = multiset(gt.iter());
    for r in frame.tp_results() {
        if let Some(g) = &r.ground_truth_object {
            *missed.entry(key(g)).or_insert(0) -= 1;
        }
    }
    missed.retain(|_, n| *n != 0);
    ensure!(missed == multiset(frame.fn_objects().iter()), "the misses are {}: {}", briefs(frame.fn_objects()), context());
    o.add("misses", frame.fn_objects().len() as u64);
    Ok(())
}

/// A history whose objects straddle the limits of the settings.
pub fn limited_history(rng: &mut Rng) -> (Settings, Vec<FrameIn>) {
    let n = 1 + rng.below(4);
    let mut s = Settings::wide(rng, n);
    s.max_x = *rng.pick(&[20.0, 40.0, 100.0]);
    s.max_y = *rng.pick(&[20.0, 40.0, 100.0]);
    s.min_points = *rng.pick(&[None, Some(0), Some(1), Some(20)]);
    let mut p = HistoryParams::draw(rng);
    p.foreign = true;
    p.frames = p.frames.min(12);
    let mut frames = gen::history(rng, &s, &p);
    if rng.chance(0.25) {
        let mut ids = Vec::new();
        for f in &frames {
            for g in &f.gt.objects {
                if rng.chance(0.6) {
                    ids.extend(g.uuid.clone());
                }
            }
        }
        s.uuids = Some(ids);
    }
    for f in &mut frames {
        for g in f.gt.objects.iter_mut() {
            if rng.chance(0.05) {
                g.position[0] = s.max_x;
            }
        }
        if rng.chance(0.1) {
            f.est.clear();
        }
        if rng.chance(0.1) {
            f.gt.objects.clear();
        }
    }
    (s, frames)
}

/// Compares scores with those expected from the inputs alone, where these are beyond doubt.
pub fn judge_history(s: &Settings, frames: &[FrameIn], sections: &[Section], o: &mut Obs) -> Verdict {
    for (mode, threshold) in [(MatchingMode::CenterDistance, s.center), (MatchingMode::PlaneDistance, s.plane)] {
        let sec = section(sections, &mode)?;
        'label: for (i, label) in s.targets.iter().enumerate() {
            let mut num_gt = 0;
            let (mut plain, mut heading) = (Vec::new(), Vec::new());
            for f in frames {
                let est: Vec<DynamicObject> = f.est.iter().filter(|e| e.label == *label && s.keeps(e, false)).cloned().collect();
                let gt: Vec<DynamicObject> = f.gt.objects.iter().filter(|g| g.label == *label && s.keeps(g, true)).cloned().collect();
                num_gt += gt.len();
                let pairing = match oracle::pairing(&est, &gt) {
                    Some(p) => p,
                    None => continue 'label,
                };
                for (e, g) in est.iter().zip(pairing) {
                    let g = g.map(|j| &gt[j]);
                    let hit = match oracle::beats(&mode, e, g, threshold) {
                        Some(hit) => hit,
                        None => continue 'label,
                    };
                    plain.push((e.confidence, if hit { 1.0 } else { 0.0 }));
                    heading.push((e.confidence, if hit { oracle::heading_value(e, g.unwrap()) } else { 0.0 }));
                }
            }
            let e_ap = oracle::average_precision(&plain, num_gt);
            let e_aph = oracle::average_precision(&heading, num_gt);
            ensure!(
                within(sec.ap[i], e_ap, sec.tol) && within(sec.aph[i], e_aph, sec.tol),
                "{} {:?}: AP {} instead of {:?}, APH {} instead of {:?}: {}",
                label, mode, sec.ap[i], e_ap, sec.aph[i], e_aph, describe(s, frames)
            );
            o.hit("scores_judged");
            if e_ap.0 > 0.0 && e_ap.0 < 1.0 {
                o.nontrivial = true;
                o.shape(((e_ap.0 * 1e6) as i64, frames.len()));
            }
        }
    }
    Ok(())
}

pub fn p08(rng: &mut Rng, _env: &Env, o: &mut Obs) -> Verdict {
    let (mut s, mut frames) = limited_history(rng);
    if rng.chance(0.1) {
        s.task = rng.pick(&[EvaluationTask::Tracking, EvaluationTask::Prediction]).clone();
    }
    // a recording of minutes
    let long = rng.below(1_000) == 0;
    if long {
        for f in &mut frames {
            f.est.truncate(3);
            f.gt.objects.truncate(3);
        }
        let short = frames.clone();
        let n = 500 + rng.below(2_500);
        while !short.is_empty() && frames.len() < n {
            frames.push(rng.pick(&short).clone());
        }
        o.hit("long_recordings");
    }
    let config = s.config()?;
    let mut m = manager(&config);
    let mut taken: Vec<Snapshot> = Vec::new();
    for (i, f) in frames.iter().enumerate() {
        feed(&mut m, std::slice::from_ref(f))?;
        ensure!(m.frame_results.len() == i + 1, "{} frame results after {} frames", m.frame_results.len(), i + 1);
        for (k, old) in taken.iter().enumerate() {
            if long && i + 1 < frames.len() && !(i % 100 == 0 || k == 0 || i - k < 3) {
                continue;
            }
            ensure!(*old == snapshot(&m.frame_results[k]), "adding frame {} altered frame {}: {}", i, k, describe(&s, &frames[..frames.len().min(20)]));
        }
        judge_frame(&s, f, &m.frame_results[i], o)?;
        taken.push(snapshot(&m.frame_results[i]));
        if s.task == EvaluationTask::Detection && rng.chance(if long { 0.003 } else { 0.3 }) {
            scores(&m)?;
            o.hit("reads_in_between");
        }
    }
    if s.task != EvaluationTask::Detection {
        ensure!(m.get_metrics_score().is_err(), "scores of the task {:?} are no error", s.task);
        o.hit("other_tasks_rejected");
        return Ok(());
    }
    let sections = scores(&m)?;
    judge_history(&s, &frames, &sections, o)?;
    o.add("frames", frames.len() as u64);
    o.sample = Some(json!({"settings": format!("{:?}", s).chars().take(300).collect::<String>(), "frames": frames.len(), "scores": show(&sections)}));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P27

pub fn p27(rng: &mut Rng, _env: &Env, o: &mut Obs) -> Verdict {
    let n = 1 + rng.below(8);
    let mut s = Settings::wide(rng, n);
    s.center = *rng.pick(&[0.5, 1.0, 2.0, 12.345, 100.0, 0.001]);
    s.plane = *rng.pick(&[0.5, 1.5, 3.0, 2.718, 0.25]);
    if rng.chance(0.1) {
        // of any width
        let t = *rng.pick(&[0.0, 1e-4, 9.9995, 1234.5678, 99_999.9996, 123_456.5, 1e9, 1e15, -1.0, -1234.5, f64::INFINITY]);
        if rng.chance(0.5) {
            s.center = t;
        } else {
            s.plane = t;
        }
        o.hit("unusual_threshold");
    }
    if rng.chance(0.2) {
        let i = rng.below(s.targets.len());
        s.targets.push(s.targets[i].clone());
        s.names.push(s.names[i].clone());
    }
    let mut p = HistoryParams::draw(rng);
    p.frames = p.frames.min(5);
    p.per_label = p.per_label.min(6);
    let frames = gen::history(rng, &s, &p);
    if rng.below(60) == 0 {
        let n = 9 + rng.below(292);
        s.lengthen(rng, n);
        o.hit("long_label_lists");
    }
    let config = s.config()?;
    let mut m = manager(&config);
    feed(&mut m, &frames)?;
    let score = m.get_metrics_score().map_err(|e| format!("get_metrics_score failed: {}", e))?;
    let text = format!("{}", score);
    let sections = report::parse(&text)?;
    ensure!(sections.len() == 2, "{} sections: {}", sections.len(), text);
    for (sec, (name, threshold)) in sections.iter().zip([("CenterDistance", s.center), ("PlaneDistance", s.plane)]) {
        ensure!(sec.mode == name, "section {} instead of {}: {}", sec.mode, name, text);
        let labels: Vec<String> = s.targets.iter().map(|l| format!("{:?}", l)).collect();
        ensure!(sec.labels == labels, "labels {:?} instead of {:?}: {}", sec.labels, labels, text);
        ensure!(sec.thresholds.len() == labels.len(), "{} thresholds: {}", sec.thresholds.len(), text);
        for t in &sec.thresholds {
            ensure!(*t == threshold || (t - threshold).abs() <= 0.000501, "threshold {} instead of {}: {}", t, threshold, text);
        }
        for (mean, values, what) in [(sec.map, &sec.ap, "mAP"), (sec.maph, &sec.aph, "mAPH")] {
            let expected = values.iter().sum::<f64>() / values.len() as f64;
            ensure!(close(mean, expected, 0.00102), "{} is {} but the mean of {:?} is {}: {}", what, mean, values, expected, text);
            o.hit("means_judged");
        }
        // the values are the scores, to three decimals
        let mode = mode_of(name).unwrap();
        for (i, label) in s.targets.iter().enumerate() {
            if let Some((ap, aph, _, _)) = expected_scores(&m.frame_results, label, &mode, threshold) {
                ensure!(
                    within(sec.ap[i], ap, 0.000501) && within(sec.aph[i], aph, 0.000501),
                    "{} has AP {} and APH {} instead of {:?} and {:?}: {}", label, sec.ap[i], sec.aph[i], ap, aph, text
                );
                o.hit("values_judged");
                if ap.0 > 0.0 && ap.1 < 1.0 {
                    o.nontrivial = true;
                }
                o.shape(((sec.ap[i] * 1e3) as i64, (sec.aph[i] * 1e3) as i64, s.targets.len()));
            }
        }
    }
    // to three decimals: every value of the table is written that way
    for line in text.lines().filter(|l| l.trim_start().starts_with('|') && l.contains("AP")) {
        for cell in line.split('|').map(|c| c.trim()).filter(|c| !c.is_empty() && !c.starts_with("AP")) {
            let three = cell == "NaN" || cell.rsplit_once('.').map_or(false, |(_, d)| d.len() == 3);
            ensure!(three, "{:?} is not printed to three decimals: {}", cell, text);
        }
    }
    // printing again, a clone, and another read give the same values
    let again = report::parse(&format!("{}", score))?;
    let clone = report::parse(&format!("{}", score.clone()))?;
    let read = report::parse(&format!("{}", m.get_metrics_score().map_err(|e| e.to_string())?))?;
    for other in [&again, &clone, &read] {
        ensure!(equal_sections(&sections, other), "printing again differs: {} and {}", show(&sections), show(other));
    }
    // debug output and the other displays never fail
    let _ = format!("{:?}", score);
    for f in &frames {
        let _ = format!("{} {}", f.gt, f.est.iter().map(|e| format!("{} {}", e, e.state())).collect::<String>());
    }
    o.hit("printed");
    o.sample = Some(json!({ "text": text }));
    Ok(())
}

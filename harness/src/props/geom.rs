//! Scores of pairs and the geometry under them: P09 to P15.

use crate::ensure;
use crate::gen::{self, brief};
use crate::obs::{Env, Obs, Verdict};
use crate::oracle::{self, add, dist2, dist3, qconj, qmul, qnorm, qrot, qsame, sub, q_axis, q_yaw, Q, V3};
use crate::rng::Rng;
use perception_eval::dataset::nuscenes::r#box::NuScenesBox;
use perception_eval::dataset::nuscenes::schema::LongToken;
use perception_eval::dataset::FrameGroundTruth;
use perception_eval::label::Label;
use perception_eval::matching::MatchingMode;
use perception_eval::object::object3d::DynamicObject;
use perception_eval::result::frame::PerceptionFrameResult;
use perception_eval::result::object::PerceptionResult;
use perception_eval::utils::math;
use perception_eval::utils::point::{distance_points, distance_points_bev, get_point_left_right};
use serde_json::json;
use std::f64::consts::PI;

fn correct(a: &DynamicObject, b: Option<&DynamicObject>, mode: &MatchingMode, t: f64) -> Result<bool, String> {
    let r = PerceptionResult::new(a.clone(), b.cloned());
    let direct = r
        .is_result_correct(mode, &t)
        .map_err(|e| format!("is_result_correct failed: {}", e))?;
    Ok(direct)
}

/// All that is not to count for the score differs, or is all the same.
fn disguise(rng: &mut Rng, a: &DynamicObject, b: &mut DynamicObject) {
    match rng.below(5) {
        0 => b.uuid = a.uuid.clone(),
        1 => b.uuid = Some(String::new()),
        _ => {}
    }
    if rng.chance(0.3) {
        let size = b.size;
        gen::dress(rng, b, 0.5);
        b.size = size;
    }
    if rng.chance(0.1) {
        b.confidence = gen::special(rng);
    }
}

/// The same verdict as it comes out of a frame result.
fn correct_in_frame(a: &DynamicObject, b: &DynamicObject, mode: &MatchingMode, t: f64) -> Result<bool, String> {
    let frame = PerceptionFrameResult::new(
        vec![PerceptionResult::new(a.clone(), Some(b.clone()))],
        FrameGroundTruth { timestamp: b.timestamp, objects: vec![b.clone()] },
        &[a.label.clone()],
        mode.clone(),
        &[t],
    )
    .map_err(|e| format!("PerceptionFrameResult::new failed: {}", e))?;
    let (tp, fp, missed) = (frame.tp_results().len(), frame.fp_results().len(), frame.fn_objects().len());
    match (tp, fp, missed) {
        (1, 0, 0) => Ok(true),
        (0, 1, 1) => Ok(false),
        _ => Err(format!("one pair gives {} TP, {} FP, {} FN", tp, fp, missed)),
    }
}

/// The score as the thresholds reveal it.
fn observed_score(a: &DynamicObject, b: &DynamicObject, mode: &MatchingMode, high: f64) -> Result<f64, String> {
    let smaller_is_better = matches!(mode, MatchingMode::CenterDistance | MatchingMode::PlaneDistance);
    let (mut lo, mut hi) = (-0.25, high);
    for _ in 0..58 {
        let mid = 0.5 * (lo + hi);
        if correct(a, Some(b), mode, mid)? == smaller_is_better {
            hi = mid;
        } else {
            lo = mid;
        }
    }
    Ok(0.5 * (lo + hi))
}

fn near(rng: &mut Rng, base: &DynamicObject) -> DynamicObject {
    let reach = *rng.pick(&[0.1, 1.0, 3.0, 20.0]);
    let tilted = rng.chance(0.5);
    gen::estimate_of(rng, base, reach, tilted)
}

fn some_label(rng: &mut Rng) -> Label {
    rng.pick(&gen::LABELS).clone()
}

/// Thresholds around a score.
fn around(rng: &mut Rng, s: f64, tol: f64) -> Vec<f64> {
    let mut v = vec![
        0.0,
        -1.0,
        s + 3.0 * tol,
        s - 3.0 * tol,
        s * rng.range(0.2, 2.0),
        s * *rng.pick(&[1.001, 0.999, 1.0 + 1e-9, 1.0 - 1e-9]),
        gen::magnitude(rng, -12.0, 3.0),
        s + rng.range(-0.5, 0.5),
        *rng.pick(&[0.1, 0.25, 0.5, 1.0, 2.0, 5.0]),
        // no limit, or none that can be kept
        *rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, 1e9, f64::MIN_POSITIVE]),
    ];
    v.push(s * (1.0 + rng.range(-1e-6, 1e-6)));
    v
}

/// One pair against one threshold, in both ways to ask.
fn judge(o: &mut Obs, rng: &mut Rng, a: &DynamicObject, b: &DynamicObject, mode: &MatchingMode, t: f64, s: f64, tol: f64) -> Verdict {
    o.census.pair(a, b);
    o.census.estimates([a]);
    o.census.ground_truths([b]);
    let distance = matches!(mode, MatchingMode::CenterDistance | MatchingMode::PlaneDistance);
    // scores are not negative
    let want = if t < 0.0 || (t == 0.0 && distance) {
        !distance
    } else if (s - t).abs() <= tol {
        // (a threshold that is not a number is not close: nothing beats it)
        o.hit("threshold_too_close_to_call");
        return Ok(());
    } else if distance {
        s < t
    } else {
        s > t
    };
    let got = if rng.chance(0.25) { correct_in_frame(a, b, mode, t)? } else { correct(a, Some(b), mode, t)? };
    ensure!(
        got == want,
        "{:?}: score {} and threshold {:?}: correct should be {} but is {} for {} and {}",
        mode, s, t, want, got, brief(a), brief(b)
    );
    o.hit(if want { "correct_confirmed" } else { "incorrect_confirmed" });
    if (s - t).abs() < 1e-4 {
        o.hit("close_threshold_confirmed");
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ P09

/// Integers with a^2 + b^2 + c^2 = d^2.
const QUADRUPLES: [[i64; 4]; 10] = [
    [3, 4, 0, 5],
    [5, 12, 0, 13],
    [1, 2, 2, 3],
    [2, 3, 6, 7],
    [1, 4, 8, 9],
    [4, 4, 7, 9],
    [2, 6, 9, 11],
    [1, 0, 0, 1],
    [0, 0, 3, 3],
    [8, 9, 12, 17],
];

pub fn p09(rng: &mut Rng, _env: &Env, o: &mut Obs) -> Verdict {
    let mode = MatchingMode::CenterDistance;
    let label = some_label(rng);
    let mut a = gen::object(rng, label);
    let exact = rng.chance(0.4);
    let mut b;
    if exact {
        // exactly representable distances: the comparison is strict
        let unit = *rng.pick(&[1.0, 0.5, 0.25, 0.125, 2.0]);
        let mut q = *rng.pick(&QUADRUPLES);
        let d = q[3] as f64 * unit;
        let mut xyz = [q[0], q[1], q[2]];
        rng.shuffle(&mut xyz);
        q = [xyz[0], xyz[1], xyz[2], q[3]];
        a.position = [0, 1, 2].map(|_| rng.int(-40, 40) as f64 * 0.5);
        b = near(rng, &a);
        for i in 0..3 {
            let sign = if rng.chance(0.5) { 1.0 } else { -1.0 };
            b.position[i] = a.position[i] + sign * q[i] as f64 * unit;
        }
        for (t, want) in [(d, false), (d * (1.0 + 1e-12), true), (d * (1.0 - 1e-12), false), (d + 0.125, true)] {
            let got = correct(&a, Some(&b), &mode, t)?;
            ensure!(
                got == want,
                "centre distance is exactly {} but correct={} for threshold {:?}: {} and {}",
                d, got, t, brief(&a), brief(&b)
            );
            ensure!(
                correct_in_frame(&a, &b, &mode, t)? == want,
                "frame result: centre distance is exactly {}, threshold {:?}, correct should be {}: {} and {}",
                d, t, want, brief(&a), brief(&b)
            );
        }
        o.hit("exact_boundary");
        o.nontrivial = true;
    } else {
        b = near(rng, &a);
        match rng.below(11) {
            0 => b.position = a.position,
            8 | 9 => {
                // all orders of magnitude
                let d = gen::magnitude(rng, -12.0, 3.0);
                let u = [rng.normal(), rng.normal(), rng.normal()].map(|v| if rng.chance(0.2) { 0.0 } else { v });
                b.position = add(&a.position, &u.map(|v| v * d));
            }
            10 => {
                let far = 10f64.powf(rng.range(0.0, 12.0));
                a.position = a.position.map(|v| v * far);
                b.position = b.position.map(|v| v * far);
            }
            1 => b.position = gen::point(rng),
            // the distance is all in one coordinate
            2 => {
                b.position = a.position;
                b.position[rng.below(3)] += rng.range(-3.0, 3.0);
            }
            _ => {}
        }
    }

    // distances of boxes and points
    let p = match rng.below(4) {
        0 => b.position,
        1 => a.position,
        2 => [0.0; 3],
        _ => gen::point(rng),
    };
    let rel = |got: f64, want: f64| (got - want).abs() <= 1e-12 * (1e-9 + want);
    let origin = [0.0; 3];
    let table = [
        ("distance_from", a.distance_from(&p), dist3(&a.position, &p)),
        ("distance_bev_from", a.distance_bev_from(&p), dist2(&a.position, &p)),
        ("distance", a.distance(), dist3(&a.position, &origin)),
        ("distance_bev", a.distance_bev(), dist2(&a.position, &origin)),
        ("distance_points", distance_points(&a.position, &p), dist3(&a.position, &p)),
        ("distance_points (swapped)", distance_points(&p, &a.position), dist3(&a.position, &p)),
        ("distance_points_bev", distance_points_bev(&a.position, &p), dist2(&a.position, &p)),
        ("distance_points_bev (swapped)", distance_points_bev(&p, &a.position), dist2(&a.position, &p)),
    ];
    for (name, got, want) in table {
        ensure!(rel(got, want), "{} of {:?} and {:?} is {:?}, not {:?}", name, a.position, p, got, want);
        ensure!((got == 0.0) == (want == 0.0), "{} of {:?} and {:?} is {:?}", name, a.position, p, got);
        o.hit("distance_compared");
    }

    disguise(rng, &a, &mut b);
    let s = oracle::center_distance(&a, &b);
    let tol = 1e-12 * (1e-9 + s);
    let mut verdicts = Vec::new();
    for t in around(rng, s, 1e-12 * (1.0 + s)) {
        judge(o, rng, &a, &b, &mode, t, s, tol)?;
        judge(o, rng, &b, &a, &mode, t, s, tol)?;
        if !t.is_nan() {
            verdicts.push((t, correct(&a, Some(&b), &mode, t)?));
        }
        ensure!(!correct(&a, None, &mode, t)?, "a result without ground truth is correct with threshold {}", t);
        o.hit("no_ground_truth_confirmed");
    }
    verdicts.sort_by(|x, y| x.0.total_cmp(&y.0));
    ensure!(
        verdicts.windows(2).all(|w| !w[0].1 || w[1].1),
        "a larger threshold makes a correct pair incorrect: {:?} for {} and {}",
        verdicts, brief(&a), brief(&b)
    );
    if s < 0.1 || a.position[2] != b.position[2] {
        o.nontrivial = true;
    }
    o.shape((a.position.map(f64::to_bits), b.position.map(f64::to_bits)));
    o.sample = Some(json!({"a": a.position, "b": b.position, "distance": s, "thresholds": verdicts}));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P10

/// A box somewhere around the ego vehicle.
fn around_ego(rng: &mut Rng) -> DynamicObject {
    let label = some_label(rng);
    let mut a = gen::object(rng, label);
    let r = match rng.below(6) {
        0 => rng.range(0.0, 4.0),
        4 => gen::magnitude(rng, -3.0, 3.5).abs(),
        1 => rng.range(2.0, 15.0),
        _ => rng.range(5.0, 80.0),
    };
    let (sin, cos) = gen::yaw(rng).sin_cos();
    a.position = [r * cos, r * sin, if rng.chance(0.5) { 0.0 } else { rng.range(-3.0, 3.0) }];
    if rng.chance(0.15) {
        a.position = [0, 1, 2].map(|_| rng.int(-20, 20) as f64 * 0.5);
    }
    a.orientation = if rng.chance(0.3) { gen::quat(rng) } else { gen::upright(rng) };
    a
}

/// How far the choice of the nearest side is from flipping, relative to the scene.
fn side_margin(x: &DynamicObject) -> f64 {
    let mut c = oracle::footprint(x).to_vec();
    let n = |p: &V3| (p[0] * p[0] + p[1] * p[1]).sqrt();
    c.sort_by(|p, q| n(p).total_cmp(&n(q)));
    let scale = 1.0 + n(&c[3]);
    let det = c[0][0] * c[1][1] - c[0][1] * c[1][0];
    ((n(&c[2]) - n(&c[1])) / scale).min(det.abs() / scale / scale)
}

pub fn p10(rng: &mut Rng, _env: &Env, o: &mut Obs) -> Verdict {
    let mode = MatchingMode::PlaneDistance;
    let a = around_ego(rng);
    let mut b = near(rng, &a);
    if rng.chance(0.1) {
        b = around_ego(rng);
        b.label = a.label.clone();
    }
    if rng.chance(0.3) {
        // heights do not count
        b.position[2] += if rng.chance(0.5) { rng.range(-30.0, 30.0) } else { gen::magnitude(rng, -6.0, 4.0) };
        o.hit("different_heights");
    }
    disguise(rng, &a, &mut b);

    // identical boxes
    for t in [1e-9, 0.5] {
        ensure!(correct(&a, Some(&a), &mode, t)?, "plane distance of identical boxes is not below {}: {}", t, brief(&a));
    }
    ensure!(!correct(&a, Some(&a), &mode, 0.0)?, "plane distance 0 beats threshold 0: {}", brief(&a));
    o.hit("identical_boxes");

    ensure!(!correct(&a, None, &mode, 1e9)?, "a result without ground truth is correct");

    // the helper that tells left from right
    let (p, q) = ([rng.range(-9.0, 9.0), rng.range(-9.0, 9.0), 0.3], [rng.range(-9.0, 9.0), rng.range(-9.0, 9.0), -0.2]);
    let det = p[0] * q[1] - p[1] * q[0];
    if det.abs() > 1e-6 {
        let (l, r) = get_point_left_right(&p, &q);
        let want = if det > 0.0 { (&q, &p) } else { (&p, &q) };
        ensure!((l, r) == want, "left and right of {:?} and {:?} are {:?} and {:?}", p, q, l, r);
        o.hit("left_right_compared");
    }

    let s = match oracle::plane_distance(&a, &b) {
        Some(s) => s,
        None => {
            o.hit("ambiguous_side");
            return Ok(());
        }
    };
    let far = 1.0 + a.position.iter().chain(&b.position).fold(0.0f64, |m, v| m.max(v.abs()));
    let tol = 1e-11 * far;
    for t in around(rng, s, tol) {
        judge(o, rng, &a, &b, &mode, t, s, tol)?;
        judge(o, rng, &b, &a, &mode, t, s, tol)?;
    }

    // the scene turned about the vertical axis through the origin
    let margin = side_margin(&a).min(side_margin(&b));
    if margin > 1e-6 {
        let turn = gen::yaw(rng);
        let rot = q_yaw(turn);
        let (ta, tb) = (gen::moved(&a, &rot, &[0.0; 3]), gen::moved(&b, &rot, &[0.0; 3]));
        let high = 2.0 * s + 10.0;
        let before = observed_score(&a, &b, &mode, high)?;
        let after = observed_score(&ta, &tb, &mode, high)?;
        ensure!(
            (before - s).abs() <= 4.0 * tol + 1e-12 * high,
            "plane distance is {:?}, not {:?}: {} and {}", before, s, brief(&a), brief(&b)
        );
        ensure!(
            (after - s).abs() <= 10.0 * tol + 1e-12 * high,
            "plane distance changes from {:?} to {:?} when the scene is turned by {:?}: {} and {}",
            s, after, turn, brief(&a), brief(&b)
        );
        o.hit("turned_scene");
        if turn.abs() > PI / 2.0 {
            o.hit("turned_scene_behind");
        }
    }
    let side = |x: &DynamicObject| {
        // which of the four sides is the nearest one
        let f = oracle::footprint(x);
        let (l, r) = oracle::nearest_side(x).unwrap();
        let at = |p: &V3| f.iter().position(|c| c == p).unwrap_or(9);
        (at(&l), at(&r))
    };
    let sides = (side(&a), side(&b));
    if sides.0 != sides.1 {
        o.hit("sides_differ");
    }
    o.nontrivial = s > 1e-6;
    let octant = (a.position[1].atan2(a.position[0]) / (PI / 4.0)).floor() as i64;
    o.shape((sides, octant, (s * 4.0) as i64));
    o.sample = Some(json!({"a": brief(&a), "b": brief(&b), "plane_distance": s, "nearest_sides": format!("{:?}", sides)}));
    Ok(())
}

// ------------------------------------------------------------------------------------ P11, P12

/// Two upright boxes: overlapping, nested, touching, apart, crossing.
fn box_pair(rng: &mut Rng) -> (DynamicObject, DynamicObject) {
    let label = some_label(rng);
    let mut a = gen::object(rng, label);
    let area = *rng.pick(&[5.0, 60.0, 200.0, 2000.0, 1e5]);
    a.position = [rng.range(-area, area), rng.range(-area, area), rng.range(-2.0, 2.0)];
    if rng.chance(0.15) {
        a.position = [0, 1, 2].map(|_| rng.int(-20, 20) as f64 * 0.5);
    }
    if rng.chance(0.15) {
        // on the ground plane, or on an axis
        a.position[*rng.pick(&[2, 2, 0, 1])] = 0.0;
    }
    a.orientation = gen::upright(rng);
    let mut b = gen::estimate_of(rng, &a, 1.0, false);
    match rng.below(13) {
        0 => b.orientation = a.orientation,
        12 => {
            // nearly parallel, shifted
            b.orientation = qmul(&q_yaw(gen::magnitude(rng, -9.0, -1.0)), &a.orientation);
            let m = 0.7 * (a.size[0] + a.size[1]);
            b.position = add(&a.position, &[rng.range(-m, m), rng.range(-m, m), 0.0]);
        }
        1 => {
            b.orientation = a.orientation;
            b.size = a.size;
        }
        2 => {
            // nested
            b = a.clone();
            b.size = b.size.map(|s| s * rng.range(0.1, 1.0));
        }
        3 => {
            // nearly identical
            b = a.clone();
            let e = *rng.pick(&[1e-15, 1e-12, 1e-9, 1e-6]);
            b.position = b.position.map(|v| v + rng.range(-e, e));
            b.orientation = qmul(&q_yaw(rng.range(-e, e)), &b.orientation);
        }
        4 => {
            // the same rectangle described in another way
            b = a.clone();
            let k = rng.int(-2, 2);
            b.orientation = qmul(&q_yaw(k as f64 * PI / 2.0), &b.orientation);
            if k % 2 != 0 {
                b.size = [b.size[1], b.size[0], b.size[2]];
            }
        }
        5 => {
            // crossing bars
            b = a.clone();
            a.size = [rng.range(0.1, 0.5), rng.range(4.0, 12.0), a.size[2]];
            b.size = [rng.range(0.1, 0.5), rng.range(4.0, 12.0), b.size[2]];
            b.orientation = qmul(&q_yaw(rng.range(0.2, PI - 0.2)), &b.orientation);
        }
        6 => {
            // side by side
            b.orientation = a.orientation;
            b.size = a.size;
            let shift = qrot(&a.orientation, &[0.0, a.size[0] * *rng.pick(&[1.0, -1.0, 0.5, 1.0 + 1e-9]), 0.0]);
            b.position = add(&a.position, &shift);
        }
        7 => {
            // apart
            let far = a.size[0] + a.size[1] + b.size[0] + b.size[1];
            let dir = rng.range(-PI, PI);
            b.position = add(&a.position, &[far * dir.cos(), far * dir.sin(), 0.0]);
        }
        _ => {
            // sizable random shift
            let m = 0.5 * (a.size[0] + a.size[1]);
            b.position = add(&a.position, &[rng.range(-m, m), rng.range(-m, m), 0.0]);
        }
    }
    // heights
    let h = a.size[2];
    b.position[2] = a.position[2]
        + match rng.below(6) {
            5 => gen::magnitude(rng, -6.0, 4.0),
            0 => 0.0,
            1 => rng.range(-0.5, 0.5) * h,
            2 => rng.range(-1.5, 1.5) * h,
            3 => *rng.pick(&[1.0, -1.0]) * (h + b.size[2]),
            _ => rng.range(-0.1, 0.1),
        };
    b.uuid = Some(gen::uuid(rng));
    if rng.chance(0.06) {
        // the same constellation of small or large boxes
        let k = if rng.chance(0.7) { 10f64.powf(rng.range(-2.5, -0.5)) } else { 10f64.powf(rng.range(0.5, 1.5)) };
        let apart = sub(&b.position, &a.position);
        a.position = a.position.map(|v| v.clamp(-60.0, 60.0));
        a.size = a.size.map(|s| s * k);
        b.size = b.size.map(|s| s * k);
        b.position = add(&a.position, &apart.map(|v| v * k));
    }
    (a, b)
}

/// Boxes whose overlap ratio is exactly representable: a half of a box against the box.
fn exact_pair(rng: &mut Rng, volume: bool) -> (DynamicObject, DynamicObject, f64) {
    let label = some_label(rng);
    let mut a = gen::object(rng, label);
    a.position = [0, 1, 2].map(|_| rng.int(-8, 8) as f64);
    a.orientation = [1.0, 0.0, 0.0, 0.0];
    a.size = [0, 1, 2].map(|_| *rng.pick(&[1.0, 2.0, 4.0]));
    let mut b = a.clone();
    let axes = if volume { 3 } else { 2 };
    let k = rng.below(axes);
    b.size[k] *= 0.5;
    // width runs along y, length along x
    let axis = [1, 0, 2][k];
    b.position[axis] += b.size[k] * 0.5 * *rng.pick(&[1.0, -1.0]);
    if rng.chance(0.5) {
        (a, b, 0.5)
    } else {
        (b, a, 0.5)
    }
}

fn iou_case(rng: &mut Rng, o: &mut Obs, volume: bool) -> Verdict {
    let mode = if volume { MatchingMode::Iou3d } else { MatchingMode::Iou2d };
    let score = if volume { oracle::iou3d } else { oracle::iou2d };

    if rng.chance(0.1) {
        let (a, b, s) = exact_pair(rng, volume);
        ensure!(
            !correct(&a, Some(&b), &mode, s)?,
            "{:?} is exactly {} and beats the equal threshold: {} and {}", mode, s, brief(&a), brief(&b)
        );
        ensure!(
            correct(&a, Some(&b), &mode, s - 1e-9)? && !correct(&a, Some(&b), &mode, s + 1e-9)?,
            "{:?} is exactly {}, but thresholds next to it are decided wrongly: {} and {}", mode, s, brief(&a), brief(&b)
        );
        o.hit("exact_boundary");
    }

    let (a, mut b) = box_pair(rng);
    disguise(rng, &a, &mut b);
    let s = score(&a, &b);
    let tol = 1e-7;
    ensure!(!correct(&a, None, &mode, 0.0)?, "a result without ground truth is correct");

    // identical boxes
    ensure!(
        correct(&a, Some(&a), &mode, 1.0 - tol)? && !correct(&a, Some(&a), &mode, 1.0 + tol)?,
        "{:?} of identical boxes is not 1: {}", mode, brief(&a)
    );
    o.hit("identical_boxes");

    for t in around(rng, s, tol) {
        // a ratio of zero does not beat the threshold zero
        if t == 0.0 {
            let area_gap = oracle::intersection_area(&grown(&a), &grown(&b)) == 0.0;
            let height_gap = volume && heights_apart(&a, &b);
            if area_gap || height_gap {
                for (x, y) in [(&a, &b), (&b, &a)] {
                    ensure!(!correct(x, Some(y), &mode, 0.0)?, "{:?} of disjoint boxes beats 0: {} and {}", mode, brief(&a), brief(&b));
                }
                o.hit(if area_gap { "disjoint_in_plane" } else { "disjoint_in_height_only" });
                continue;
            }
        }
        judge(o, rng, &a, &b, &mode, t, s, tol)?;
        judge(o, rng, &b, &a, &mode, t, s, tol)?;
    }

    let seen = observed_score(&a, &b, &mode, 2.0)?;
    let swapped = observed_score(&b, &a, &mode, 2.0)?;
    ensure!((seen - s).abs() <= tol, "{:?} is {:?}, not {:?}: {} and {}", mode, seen, s, brief(&a), brief(&b));
    ensure!((swapped - seen).abs() <= tol, "{:?} is {:?} but {:?} with the boxes swapped: {} and {}", mode, seen, swapped, brief(&a), brief(&b));
    ensure!((-tol..=1.0 + tol).contains(&seen), "{:?} is {:?}: {} and {}", mode, seen, brief(&a), brief(&b));
    o.hit("score_observed");
    if volume {
        let both = oracle::height_overlap(&a, &b);
        let ratio = both / (a.size[2] + b.size[2] - both);
        ensure!(seen <= ratio + tol, "{:?} {:?} exceeds the height overlap ratio {:?}: {} and {}", mode, seen, ratio, brief(&a), brief(&b));
        if both < 0.9 * a.size[2].max(b.size[2]) && s > 1e-3 {
            o.hit("partial_height_overlap");
        }
    }

    // both boxes moved and turned together
    let q = q_yaw(gen::yaw(rng));
    let mut t = [rng.range(-90.0, 90.0), rng.range(-90.0, 90.0), rng.range(-2.0, 2.0)];
    if rng.chance(0.3) {
        // far away, high up, deep down
        let far = *rng.pick(&[1e3, 1e4, 1e5]);
        t[rng.below(3)] = rng.range(-far, far);
        o.hit("moved_far");
    }
    // rounding of coordinates, compared to the least extent of the boxes
    let least = a.size.iter().chain(&b.size).fold(f64::INFINITY, |m, v| m.min(*v));
    let far = t.iter().chain(&a.position).chain(&b.position).fold(1.0f64, |m, v| m.max(v.abs()));
    let tol = tol + 1e-14 * far / least;
    let moved = observed_score(&gen::moved(&a, &q, &t), &gen::moved(&b, &q, &t), &mode, 2.0)?;
    ensure!(
        (moved - seen).abs() <= tol,
        "{:?} changes from {:?} to {:?} when both boxes are moved by {:?} {:?}: {} and {}",
        mode, seen, moved, q, t, brief(&a), brief(&b)
    );
    o.hit("moved_together");

    if s > 1e-6 && s < 1.0 - 1e-6 {
        o.hit("proper_overlap");
        o.nontrivial = true;
    }
    let turn = oracle::angle_diff(oracle::yaw_of(&a.orientation), oracle::yaw_of(&b.orientation));
    o.shape(((s * 50.0) as i64, (turn * 8.0) as i64));
    o.sample = Some(json!({"a": brief(&a), "b": brief(&b), "iou": s, "observed": seen}));
    Ok(())
}

fn grown(x: &DynamicObject) -> DynamicObject {
    let mut g = x.clone();
    g.size = g.size.map(|s| s + 1e-6);
    g
}

fn heights_apart(a: &DynamicObject, b: &DynamicObject) -> bool {
    (a.position[2] - b.position[2]).abs() > 0.5 * (a.size[2] + b.size[2]) + 1e-6
}

pub fn p11(rng: &mut Rng, _env: &Env, o: &mut Obs) -> Verdict {
    iou_case(rng, o, false)
}

pub fn p12(rng: &mut Rng, _env: &Env, o: &mut Obs) -> Verdict {
    iou_case(rng, o, true)
}

// ------------------------------------------------------------------------------------------ P13

fn matrix_of(q: &Q) -> [[f64; 3]; 3] {
    let x = qrot(q, &[1.0, 0.0, 0.0]);
    let y = qrot(q, &[0.0, 1.0, 0.0]);
    let z = qrot(q, &[0.0, 0.0, 1.0]);
    [[x[0], y[0], z[0]], [x[1], y[1], z[1]], [x[2], y[2], z[2]]]
}

pub fn p13(rng: &mut Rng, _env: &Env, o: &mut Obs) -> Verdict {
    let label = some_label(rng);
    let a = gen::object(rng, label);
    o.census.objects([&a]);
    let want = oracle::footprint(&a);
    let got = a.footprint();
    ensure!(got.len() == 4, "{} corners: {}", got.len(), brief(&a));
    let scale = a.position.iter().chain(&a.size).fold(1.0f64, |m, v| m.max(v.abs()));
    let names = ["front left", "rear left", "rear right", "front right"];
    for i in 0..4 {
        ensure!(
            dist3(&got[i], &want[i]) <= 1e-12 * scale,
            "the {} corner is {:?}, not {:?}: {}", names[i], got[i], want[i], brief(&a)
        );
        o.hit("corner_compared");
    }
    let area = a.size[0] * a.size[1];
    ensure!((a.area() - area).abs() <= 1e-12 * area, "area is {:?}, not {:?}: {}", a.area(), area, brief(&a));
    let volume = area * a.size[2];
    ensure!((a.volume() - volume).abs() <= 1e-12 * volume, "volume is {:?}, not {:?}: {}", a.volume(), volume, brief(&a));
    let (m, n) = (a.rotation_matrix(), math::quaternion2rotation(&a.orientation));
    let want = matrix_of(&a.orientation);
    for r in 0..3 {
        for c in 0..3 {
            for v in [m[(r, c)], n[(r, c)]] {
                ensure!(
                    (v - want[r][c]).abs() <= 1e-12,
                    "element {},{} of the rotation matrix is {:?}, not {:?}: {:?}", r, c, v, want[r][c], a.orientation
                );
            }
        }
    }
    o.hit("matrix_compared");
    if !oracle::is_upright(&a) {
        o.hit("tilted_box");
    }
    o.nontrivial = a.size[0] != a.size[1];
    o.shape(a.orientation.map(f64::to_bits));
    o.sample = Some(json!({"box": brief(&a), "corners": got}));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P14

fn token(rng: &mut Rng) -> LongToken {
    LongToken::try_from(gen::uuid(rng).as_str()).expect("harness: token")
}

pub fn p14(rng: &mut Rng, _env: &Env, o: &mut Obs) -> Verdict {
    let (p, q, r) = (gen::point(rng), gen::quat(rng), gen::quat(rng));
    let scale = 1.0 + p.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let tol = 1e-12 * scale;

    // points
    let want = qrot(&q, &p);
    let got = math::rotate(&p, &q);
    ensure!(dist3(&got, &want) <= tol, "rotate({:?}, {:?}) is {:?}, not {:?}", p, q, got, want);
    let m = math::quaternion2rotation(&q);
    let by_matrix = [0, 1, 2].map(|i| m[(i, 0)] * p[0] + m[(i, 1)] * p[1] + m[(i, 2)] * p[2]);
    ensure!(dist3(&got, &by_matrix) <= tol, "rotate({:?}, {:?}) is {:?}, the rotation matrix gives {:?}", p, q, got, by_matrix);
    let back = math::rotate_inv(&got, &q);
    ensure!(dist3(&back, &p) <= tol, "rotate_inv undoes rotate to {:?}, not {:?} ({:?})", back, p, q);
    let inv = math::rotate_inv(&p, &q);
    let want = qrot(&qconj(&q), &p);
    ensure!(dist3(&inv, &want) <= tol, "rotate_inv({:?}, {:?}) is {:?}, not {:?}", p, q, inv, want);
    o.add("point_rotation_compared", 4);

    // orientations: q first and then r
    let both = math::rotate_q(&q, &r);
    ensure!(
        qsame(&both, &qmul(&r, &q), 1e-12),
        "rotate_q({:?}, {:?}) is {:?}, not {:?}", q, r, both, qmul(&r, &q)
    );
    let one_by_one = math::rotate(&math::rotate(&p, &q), &r);
    ensure!(
        dist3(&math::rotate(&p, &both), &one_by_one) <= 4.0 * tol,
        "rotate_q({:?}, {:?}) does not act like both rotations one after the other on {:?}", q, r, p
    );
    let undone = math::rotate_q_inv(&both, &r);
    ensure!(qsame(&undone, &q, 1e-12), "rotate_q_inv undoes rotate_q to {:?}, not {:?} (by {:?})", undone, q, r);
    let undone = math::rotate_q_inv(&q, &r);
    ensure!(qsame(&undone, &qmul(&qconj(&r), &q), 1e-12), "rotate_q_inv({:?}, {:?}) is {:?}", q, r, undone);
    o.add("orientation_compared", 4);

    // any quaternion but zero has an inverse
    let k = rng.range(0.1, 10.0) * if rng.chance(0.5) { 1.0 } else { -1.0 };
    let any = if rng.chance(0.7) { q.map(|e| e * k) } else { q };
    let inverse = math::inverse_quaternion(&any);
    for (name, prod) in [("q^-1 q", qmul(&inverse, &any)), ("q q^-1", qmul(&any, &inverse))] {
        ensure!(
            (0..4).all(|i| (prod[i] - [1.0, 0.0, 0.0, 0.0][i]).abs() <= 1e-12),
            "inverse of {:?} is {:?}: {} = {:?}", any, inverse, name, prod
        );
    }
    o.hit("inverse_compared");

    // translations
    let t = gen::point(rng);
    let (plus, minus) = (math::translate(&p, &t), math::translate_inv(&p, &t));
    for i in 0..3 {
        let ulp = 1e-15 * (p[i].abs() + t[i].abs());
        ensure!((plus[i] - (p[i] + t[i])).abs() <= ulp, "translate({:?}, {:?}) is {:?}", p, t, plus);
        ensure!((minus[i] - (p[i] - t[i])).abs() <= ulp, "translate_inv({:?}, {:?}) is {:?}", p, t, minus);
    }
    let back = math::translate_inv(&plus, &t);
    let far = scale + t.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    ensure!(dist3(&back, &p) <= 1e-14 * far, "translate_inv undoes translate to {:?}, not {:?} (by {:?})", back, p, t);
    o.add("translation_compared", 3);

    // boxes of a dataset through a sequence of motions
    let mut b = NuScenesBox {
        position: p,
        orientation: q,
        size: gen::size(rng),
        name: format!("name{}", rng.below(9)),
        instance: token(rng),
        num_lidar_pts: rng.below(1000),
        token: token(rng),
    };
    let (size, name, instance, pts, id) = (b.size, b.name.clone(), b.instance.clone(), b.num_lidar_pts, b.token.clone());
    let (mut wp, mut wq) = (p, q);
    let mut steps = Vec::new();
    let mut extent = far;
    for _ in 0..1 + rng.below(6) {
        let t = gen::point(rng);
        let turn = gen::quat(rng);
        extent += t.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        match rng.below(4) {
            0 => {
                let peek = b.get_translate(&t);
                b.translate(&t);
                wp = add(&wp, &t);
                ensure!(dist3(&peek, &b.position) == 0.0, "get_translate is {:?}, translate gives {:?}", peek, b.position);
                steps.push(format!("translate {:?}", t));
            }
            1 => {
                let peek = b.get_translate_inv(&t);
                b.translate_inv(&t);
                wp = oracle::sub(&wp, &t);
                ensure!(dist3(&peek, &b.position) == 0.0, "get_translate_inv is {:?}, translate_inv gives {:?}", peek, b.position);
                steps.push(format!("translate_inv {:?}", t));
            }
            2 => {
                b.rotate(&turn);
                wp = qrot(&turn, &wp);
                wq = qmul(&turn, &wq);
                steps.push(format!("rotate {:?}", turn));
            }
            _ => {
                b.rotate_inv(&turn);
                wp = qrot(&qconj(&turn), &wp);
                wq = qmul(&qconj(&turn), &wq);
                steps.push(format!("rotate_inv {:?}", turn));
            }
        }
        ensure!(
            dist3(&b.position, &wp) <= 1e-11 * extent && qsame(&b.orientation, &wq, 1e-11),
            "box from {:?} {:?} through {:?} is at {:?} {:?}, not {:?} {:?}",
            p, q, steps, b.position, b.orientation, wp, wq
        );
        o.hit("box_motion_compared");
    }
    ensure!(
        b.size == size && b.name == name && b.instance == instance && b.num_lidar_pts == pts && b.token == id,
        "moving a box changes more than its pose: {:?}", b
    );
    o.nontrivial = steps.len() > 1;
    o.shape((q.map(f64::to_bits), r.map(f64::to_bits)));
    o.sample = Some(json!({"point": p, "q": q, "r": r, "box_steps": steps}));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P15

/// Quaternions with angles at the corners of the circle and pitches close to a right angle.
fn angular(rng: &mut Rng) -> Q {
    let q = match rng.below(8) {
        0 => gen::upright(rng),
        1 | 2 => gen::quat(rng),
        3 => {
            // elements that square to sums next to one
            let s = 0.5f64.sqrt();
            *rng.pick(&[[s, 0.0, s, 0.0], [s, 0.0, -s, 0.0], [0.5, 0.5, 0.5, 0.5], [0.5, -0.5, 0.5, -0.5], [0.0, s, 0.0, s], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0]])
        }
        k => {
            let special = |rng: &mut Rng| match rng.below(4) {
                3 => rng.int(-2, 2) as f64 * PI / 2.0 + gen::magnitude(rng, -10.0, 0.0),
                0 => rng.int(-4, 4) as f64 * PI / 4.0,
                1 => rng.int(-2, 2) as f64 * PI / 2.0 + rng.range(-1e-9, 1e-9),
                _ => rng.range(-PI, PI),
            };
            let pitch = match k {
                4 => *rng.pick(&[PI / 2.0, -PI / 2.0]) + rng.range(-1.0, 1.0) * *rng.pick(&[0.0, 1e-9, 1e-6, 1e-3]),
                5 => {
                    let p = PI / 2.0 - gen::magnitude(rng, -3.0, 0.0).abs();
                    if rng.chance(0.5) { p } else { -p }
                }
                6 => gen::magnitude(rng, -10.0, 0.0),
                _ => rng.range(-PI / 2.0, PI / 2.0),
            };
            let (roll, yaw) = (special(rng), special(rng));
            qmul(
                &q_yaw(yaw),
                &qmul(&q_axis(&[0.0, 1.0, 0.0], pitch), &q_axis(&[1.0, 0.0, 0.0], roll)),
            )
        }
    };
    let q = qnorm(&q);
    if rng.chance(0.3) {
        q.map(|e| -e)
    } else {
        q
    }
}

pub fn p15(rng: &mut Rng, _env: &Env, o: &mut Obs) -> Verdict {
    let q = angular(rng);
    let label = some_label(rng);
    let mut a = gen::object(rng, label);
    a.orientation = q;
    let euler = math::quaternion2euler(&q);
    let of_box = a.euler();
    let heading = a.heading();
    ensure!(
        euler.iter().chain(&of_box).chain([&heading]).all(|v| v.is_finite()),
        "angles of {:?} are {:?}, {:?}, heading {:?}", q, euler, of_box, heading
    );
    o.hit("finite_confirmed");
    ensure!(
        (-PI - 1e-12..=PI + 1e-12).contains(&heading),
        "heading {:?} of {:?} is out of the range", heading, q
    );

    let negated = q.map(|e| -e);
    let mut b = a.clone();
    b.orientation = negated;
    let same = |x: f64, y: f64| oracle::angle_diff(x, y) <= 1e-9;
    let e2 = math::quaternion2euler(&negated);
    ensure!(
        (0..3).all(|i| same(euler[i], e2[i]) && same(euler[i], of_box[i])) && same(heading, b.heading()),
        "angles of {:?} are {:?} and {:?} (heading {:?}), but of its negation {:?} (heading {:?})",
        q, euler, of_box, heading, e2, b.heading()
    );
    o.hit("negation_compared");

    let up = qrot(&q, &[1.0, 0.0, 0.0]);
    // sine of the pitch, up to the sign
    if up[2].abs() > 1.0 - 1e-6 {
        o.hit("right_angle_pitch");
        o.nontrivial = true;
    } else {
        let [roll, pitch, yaw] = euler;
        let again = qmul(
            &q_yaw(yaw),
            &qmul(&q_axis(&[0.0, 1.0, 0.0], pitch), &q_axis(&[1.0, 0.0, 0.0], roll)),
        );
        // close to the right angle the pitch is only known to the root of the precision
        let tol = 1e-9;
        ensure!(
            qsame(&again, &q, tol),
            "roll, pitch, yaw {:?} of {:?} denote {:?}", euler, q, again
        );
        o.hit("reproduced");
        let want = oracle::yaw_of(&q);
        ensure!(
            oracle::angle_diff(heading, want) <= 1e-9,
            "heading of {:?} is {:?}, not {:?}", q, heading, want
        );
        o.hit("heading_compared");
        if heading.abs() > PI / 2.0 {
            o.hit("heading_backward");
            o.nontrivial = true;
        }
        if roll.abs() > PI / 2.0 {
            o.hit("roll_beyond_right_angle");
        }
    }
    o.shape([euler[0], euler[1], euler[2]].map(|v| (v * 16.0) as i64));
    o.sample = Some(json!({"q": q, "euler": euler, "heading": heading}));
    Ok(())
}

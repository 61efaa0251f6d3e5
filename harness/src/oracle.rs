//! Independent reference semantics. Nothing here calls the crate under test, except that it reads
//! the plain fields of its data types.

use perception_eval::label::Label;
use perception_eval::matching::MatchingMode;
use perception_eval::object::object3d::DynamicObject;
use std::f64::consts::PI;

pub type V3 = [f64; 3];
pub type Q = [f64; 4]; // w, x, y, z

pub fn cross(a: &V3, b: &V3) -> V3 {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}

/// Rotation of a vector by a unit quaternion: v + 2 w (u x v) + 2 u x (u x v).
pub fn qrot(q: &Q, v: &V3) -> V3 {
    let u = [q[1], q[2], q[3]];
    let t = cross(&u, v);
    let tt = cross(&u, &t);
    [
        v[0] + 2.0 * (q[0] * t[0] + tt[0]),
        v[1] + 2.0 * (q[0] * t[1] + tt[1]),
        v[2] + 2.0 * (q[0] * t[2] + tt[2]),
    ]
}

/// The orientation that acts like b first and then a.
pub fn qmul(a: &Q, b: &Q) -> Q {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}

pub fn qconj(q: &Q) -> Q {
    [q[0], -q[1], -q[2], -q[3]]
}

pub fn qnorm(q: &Q) -> Q {
    let n = q.iter().map(|e| e * e).sum::<f64>().sqrt();
    [q[0] / n, q[1] / n, q[2] / n, q[3] / n]
}

/// Same orientation: equal up to the sign.
pub fn qsame(a: &Q, b: &Q, tol: f64) -> bool {
    let d = |s: f64| (0..4).map(|i| (a[i] - s * b[i]).abs()).fold(0.0, f64::max);
    d(1.0) <= tol || d(-1.0) <= tol
}

pub fn q_axis(axis: &V3, angle: f64) -> Q {
    let n = (axis[0] * axis[0] + axis[1] * axis[1] + axis[2] * axis[2]).sqrt();
    let (s, c) = (angle / 2.0).sin_cos();
    [c, s * axis[0] / n, s * axis[1] / n, s * axis[2] / n]
}

pub fn q_yaw(yaw: f64) -> Q {
    q_axis(&[0.0, 0.0, 1.0], yaw)
}

/// Direction of the yaw rotation: azimuth of the rotated x axis.
pub fn yaw_of(q: &Q) -> f64 {
    let x = qrot(q, &[1.0, 0.0, 0.0]);
    x[1].atan2(x[0])
}

/// Smallest absolute angle between two directions.
pub fn angle_diff(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(2.0 * PI);
    d.min(2.0 * PI - d)
}

pub fn sub(a: &V3, b: &V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn add(a: &V3, b: &V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn dist3(a: &V3, b: &V3) -> f64 {
    let d = sub(a, b);
    (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt()
}
pub fn dist2(a: &V3, b: &V3) -> f64 {
    let d = sub(a, b);
    (d[0] * d[0] + d[1] * d[1]).sqrt()
}

/// front left, rear left, rear right, front right
pub fn footprint(o: &DynamicObject) -> [V3; 4] {
    let (w, l) = (o.size[0], o.size[1]);
    [(0.5, 0.5), (-0.5, 0.5), (-0.5, -0.5), (0.5, -0.5)]
        .map(|(a, b)| add(&qrot(&o.orientation, &[a * l, b * w, 0.0]), &o.position))
}

pub fn center_distance(a: &DynamicObject, b: &DynamicObject) -> f64 {
    dist3(&a.position, &b.position)
}

/// Left and right corner of the side nearest to the origin, None if it is ambiguous.
pub fn nearest_side(o: &DynamicObject) -> Option<(V3, V3)> {
    let mut corners = footprint(o).to_vec();
    let key = |p: &V3| (p[0] * p[0] + p[1] * p[1]).sqrt();
    corners.sort_by(|a, b| key(a).total_cmp(&key(b)));
    let scale = 1.0 + key(&corners[3]);
    if key(&corners[2]) - key(&corners[1]) < 1e-9 * scale {
        return None;
    }
    let (p, q) = (corners[0], corners[1]);
    // sine of the angle from p to q as seen from the origin
    let det = p[0] * q[1] - p[1] * q[0];
    if det.abs() < 1e-9 * scale * scale {
        return None;
    }
    // q is counterclockwise of p: q is the left one as seen from the origin
    Some(if det > 0.0 { (q, p) } else { (p, q) })
}

pub fn plane_distance(a: &DynamicObject, b: &DynamicObject) -> Option<f64> {
    let (al, ar) = nearest_side(a)?;
    let (bl, br) = nearest_side(b)?;
    let (dl, dr) = (dist2(&al, &bl), dist2(&ar, &br));
    Some(((dl * dl + dr * dr) / 2.0).sqrt())
}

pub fn is_upright(o: &DynamicObject) -> bool {
    o.orientation[1].abs() < 1e-12 && o.orientation[2].abs() < 1e-12
}

/// Area of a simple polygon (shoelace, relative to its first vertex).
pub fn polygon_area(p: &[[f64; 2]]) -> f64 {
    if p.len() < 3 {
        return 0.0;
    }
    let o = p[0];
    let mut s = 0.0;
    for i in 1..p.len() - 1 {
        s += (p[i][0] - o[0]) * (p[i + 1][1] - o[1]) - (p[i][1] - o[1]) * (p[i + 1][0] - o[0]);
    }
    s.abs() / 2.0
}

/// Area common to two upright boxes: the second is clipped in the frame of the first, where the
/// first is an axis aligned rectangle centred at the origin.
pub fn intersection_area(a: &DynamicObject, b: &DynamicObject) -> f64 {
    let inv = qconj(&a.orientation);
    let mut poly: Vec<[f64; 2]> = footprint(b)
        .iter()
        .map(|p| {
            let l = qrot(&inv, &[p[0] - a.position[0], p[1] - a.position[1], 0.0]);
            [l[0], l[1]]
        })
        .collect();
    let half = [a.size[1] / 2.0, a.size[0] / 2.0];
    for axis in 0..2 {
        for sign in [1.0, -1.0] {
            let inside = |p: &[f64; 2]| half[axis] - sign * p[axis];
            let mut out = Vec::new();
            for i in 0..poly.len() {
                let (p, q) = (poly[i], poly[(i + 1) % poly.len()]);
                let (dp, dq) = (inside(&p), inside(&q));
                if dp >= 0.0 {
                    out.push(p);
                }
                if (dp > 0.0 && dq < 0.0) || (dp < 0.0 && dq > 0.0) {
                    let t = dp / (dp - dq);
                    out.push([p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])]);
                }
            }
            poly = out;
        }
    }
    polygon_area(&poly)
}

pub fn height_overlap(a: &DynamicObject, b: &DynamicObject) -> f64 {
    let top = (a.position[2] + a.size[2] / 2.0).min(b.position[2] + b.size[2] / 2.0);
    let bottom = (a.position[2] - a.size[2] / 2.0).max(b.position[2] - b.size[2] / 2.0);
    (top - bottom).max(0.0)
}

pub fn iou2d(a: &DynamicObject, b: &DynamicObject) -> f64 {
    let i = intersection_area(a, b);
    i / (a.size[0] * a.size[1] + b.size[0] * b.size[1] - i)
}

pub fn iou3d(a: &DynamicObject, b: &DynamicObject) -> f64 {
    let v = |o: &DynamicObject| o.size[0] * o.size[1] * o.size[2];
    let i = intersection_area(a, b) * height_overlap(a, b);
    i / (v(a) + v(b) - i)
}

/// Score of a pair, None where the specification leaves it open.
pub fn score(mode: &MatchingMode, est: &DynamicObject, gt: &DynamicObject) -> Option<f64> {
    match mode {
        MatchingMode::CenterDistance => Some(center_distance(est, gt)),
        MatchingMode::PlaneDistance => plane_distance(est, gt),
        MatchingMode::Iou2d if is_upright(est) && is_upright(gt) => Some(iou2d(est, gt)),
        MatchingMode::Iou3d if is_upright(est) && is_upright(gt) => Some(iou3d(est, gt)),
        _ => None,
    }
}

/// Decides the strict comparison of the centre distance exactly where all numbers are small
/// multiples of 1/64: any sensible evaluation in f64 has no relevant rounding error there.
fn exact_center(est: &DynamicObject, gt: &DynamicObject, threshold: f64) -> Option<bool> {
    let grid = |v: f64| {
        let s = v * 64.0;
        if s == s.trunc() && v.abs() <= 1024.0 {
            Some(s as i64)
        } else {
            None
        }
    };
    let mut sum = 0;
    for i in 0..3 {
        let d = grid(est.position[i])? - grid(gt.position[i])?;
        sum += d * d;
    }
    let t = grid(threshold)?;
    Some(t > 0 && sum < t * t)
}

/// Does the pair beat the threshold? None if it is too close to call for floating point numbers
/// or left open by the specification.
pub fn beats(
    mode: &MatchingMode,
    est: &DynamicObject,
    gt: Option<&DynamicObject>,
    threshold: f64,
) -> Option<bool> {
    let gt = match gt {
        Some(gt) => gt,
        None => return Some(false),
    };
    if *mode == MatchingMode::CenterDistance {
        if let Some(exact) = exact_center(est, gt, threshold) {
            return Some(exact);
        }
    }
    let s = score(mode, est, gt)?;
    let far = est.position.iter().chain(&gt.position).fold(1.0, |a: f64, b| a.max(b.abs()));
    let tol = match mode {
        MatchingMode::CenterDistance | MatchingMode::PlaneDistance => 1e-11 * far,
        _ => 1e-7,
    };
    if (s - threshold).abs() <= tol {
        return None;
    }
    Some(match mode {
        MatchingMode::CenterDistance | MatchingMode::PlaneDistance => s < threshold,
        _ => s > threshold,
    })
}

/// Closest-first pairing of objects with the same label. None if two distances tie.
pub fn pairing(est: &[DynamicObject], gt: &[DynamicObject]) -> Option<Vec<Option<usize>>> {
    let mut pairs = Vec::new();
    for (i, e) in est.iter().enumerate() {
        for (j, g) in gt.iter().enumerate() {
            if e.label == g.label {
                pairs.push((center_distance(e, g), i, j));
            }
        }
    }
    pairs.sort_by(|a, b| a.0.total_cmp(&b.0));
    if pairs.windows(2).any(|w| w[1].0 - w[0].0 <= 1e-10 * (1.0 + w[1].0)) {
        return None;
    }
    let mut of_est = vec![None; est.len()];
    let mut taken = vec![false; gt.len()];
    for (_, i, j) in pairs {
        if of_est[i].is_none() && !taken[j] {
            of_est[i] = Some(j);
            taken[j] = true;
        }
    }
    Some(of_est)
}

/// One ranked detection: confidence and the value of its hit (0 if it is a false alarm).
pub type Ranked = (f64, f64);

fn area(weights: &[f64], num_gt: usize) -> f64 {
    if num_gt == 0 {
        return if weights.is_empty() { f64::NAN } else { 0.0 };
    }
    let mut sum = 0.0;
    let points: Vec<(f64, f64)> = weights
        .iter()
        .enumerate()
        .map(|(i, w)| {
            sum += w;
            (sum / num_gt as f64, sum / (i as f64 + 1.0))
        })
        .collect();
    // precision at a recall is the best at that or any higher recall
    let mut best: f64 = 0.0;
    let mut total = 0.0;
    for i in (0..points.len()).rev() {
        best = best.max(points[i].1);
        let lower = if i == 0 { 0.0 } else { points[i - 1].0 };
        total += best * (points[i].0 - lower);
    }
    total
}

/// Smallest and largest area under the curve over all orders of equal confidences.
pub fn average_precision(items: &[Ranked], num_gt: usize) -> (f64, f64) {
    let mut low = items.to_vec();
    low.sort_by(|a, b| b.0.total_cmp(&a.0).then(a.1.total_cmp(&b.1)));
    let mut high = items.to_vec();
    high.sort_by(|a, b| b.0.total_cmp(&a.0).then(b.1.total_cmp(&a.1)));
    let w = |v: &[Ranked]| v.iter().map(|i| i.1).collect::<Vec<_>>();
    (area(&w(&low), num_gt), area(&w(&high), num_gt))
}

pub fn heading_value(est: &DynamicObject, gt: &DynamicObject) -> f64 {
    1.0 - angle_diff(yaw_of(&est.orientation), yaw_of(&gt.orientation)) / PI
}

/// Does filtering keep the object? (labels, limits, points and ids as configured)
pub fn keeps(
    o: &DynamicObject,
    is_gt: bool,
    targets: &[Label],
    max_x: f64,
    max_y: f64,
    min_points: Option<usize>,
    uuids: &Option<Vec<String>>,
) -> bool {
    if !targets.contains(&o.label) {
        return false;
    }
    if !(o.position[0].abs() < max_x && o.position[1].abs() < max_y) {
        return false;
    }
    if is_gt {
        if let (Some(min), Some(n)) = (min_points, o.pointcloud_num) {
            if n < min {
                return false;
            }
        }
        if let Some(list) = uuids {
            match &o.uuid {
                Some(id) if list.contains(id) => {}
                _ => return false,
            }
        }
    }
    true
}

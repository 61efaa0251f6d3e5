//! Generators of objects, frames and histories.

use crate::oracle::{self, add, q_axis, q_yaw, qmul, qnorm, qrot, Q, V3};
use crate::rng::Rng;
use chrono::{Duration, NaiveDate, NaiveDateTime};
use perception_eval::config::{FilterParams, MetricsParams, PerceptionEvaluationConfig};
use perception_eval::dataset::FrameGroundTruth;
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::frame_id::FrameID;
use perception_eval::label::Label;
use perception_eval::object::object3d::DynamicObject;
use std::f64::consts::PI;
use std::path::PathBuf;

pub const LABELS: [Label; 8] = [
    Label::Unknown,
    Label::Car,
    Label::Truck,
    Label::Bus,
    Label::Bicycle,
    Label::Motorbike,
    Label::Pedestrian,
    Label::Animal,
];

/// A target name that stands for the label in the documented naming scheme.
pub fn label_name(rng: &mut Rng, label: &Label) -> String {
    let name = match label {
        Label::Unknown => *rng.pick(&["unknown", "movable_object.debris"]),
        Label::Car => *rng.pick(&["car", "vehicle.car", "vehicle.police"]),
        Label::Truck => *rng.pick(&["truck", "vehicle.truck", "trailer"]),
        Label::Bus => *rng.pick(&["bus", "vehicle.bus", "vehicle.bus.rigid"]),
        Label::Bicycle => *rng.pick(&["bicycle", "vehicle.bicycle"]),
        Label::Motorbike => *rng.pick(&["motorbike", "vehicle.motorcycle"]),
        Label::Pedestrian => *rng.pick(&["pedestrian", "pedestrian.adult", "human.pedestrian.child"]),
        Label::Animal => "animal",
    };
    if rng.chance(0.3) {
        name.to_uppercase()
    } else {
        name.to_string()
    }
}

pub fn time_us(us: i64) -> NaiveDateTime {
    NaiveDate::from_ymd_opt(1970, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap()
        + Duration::microseconds(us)
}

/// Yaw angle, with the special directions over-represented.
pub fn yaw(rng: &mut Rng) -> f64 {
    if rng.chance(0.3) {
        let base = rng.int(-4, 4) as f64 * PI / 4.0;
        match rng.below(5) {
            4 => base + magnitude(rng, -12.0, 0.0),
            0 => base + rng.range(-1e-6, 1e-6),
            1 => base + rng.range(-0.05, 0.05),
            _ => base,
        }
    } else {
        rng.range(-PI, PI)
    }
}

/// Orientation of a box standing on the ground, q or -q.
pub fn upright(rng: &mut Rng) -> Q {
    let q = q_yaw(yaw(rng));
    let q = if rng.chance(0.3) { [-q[0], -q[1], -q[2], -q[3]] } else { q };
    if rng.chance(0.1) {
        *rng.pick(&[
            [1.0, 0.0, 0.0, 0.0],
            [-1.0, 0.0, 0.0, 0.0],
            [0.0, 0.0, 0.0, 1.0],
            [0.0, 0.0, 0.0, -1.0],
        ])
    } else {
        q
    }
}

/// Any orientation.
pub fn quat(rng: &mut Rng) -> Q {
    match rng.below(8) {
        0 => upright(rng),
        6 => {
            // next to no rotation, or to half a turn
            let axis = match rng.below(3) {
                0 => [0.0, 0.0, 1.0],
                _ => [rng.normal(), rng.normal(), rng.normal()],
            };
            let angle = magnitude(rng, -10.0, 0.0);
            q_axis(&axis, if rng.chance(0.3) { PI - angle } else { angle })
        }
        1 => {
            // slightly tilted
            let axis = [rng.normal(), rng.normal(), 0.1];
            qmul(&upright(rng), &q_axis(&axis, rng.range(-0.3, 0.3)))
        }
        2 => {
            let axis = *rng.pick(&[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]);
            q_axis(&axis, rng.int(-8, 8) as f64 * PI / 4.0)
        }
        _ => {
            let q = [rng.normal(), rng.normal(), rng.normal(), rng.normal()];
            qnorm(&q)
        }
    }
}

/// A number of either sign with all orders of magnitude alike.
pub fn magnitude(rng: &mut Rng, low: f64, high: f64) -> f64 {
    let v = 10f64.powf(rng.range(low, high));
    if rng.chance(0.5) {
        -v
    } else {
        v
    }
}

/// Coordinates from small dyadic grids to map frame magnitudes.
pub fn coord(rng: &mut Rng) -> f64 {
    match rng.below(9) {
        8 => magnitude(rng, -9.0, 6.0),
        0 => rng.int(-8, 8) as f64 * 0.5,
        1 => rng.range(-1.0, 1.0),
        2 => rng.range(-5e4, 5e4),
        3 => 0.0,
        _ => rng.range(-60.0, 60.0),
    }
}

pub fn point(rng: &mut Rng) -> V3 {
    if rng.chance(0.03) {
        // in a map projection
        return [magnitude(rng, 4.0, 7.5), magnitude(rng, 4.0, 7.5), rng.range(-400.0, 4e3)];
    }
    [coord(rng), coord(rng), coord(rng)]
}

pub fn size(rng: &mut Rng) -> V3 {
    match rng.below(5) {
        0 => [2.0, 4.5, 1.5],
        4 => [0, 1, 2].map(|_| magnitude(rng, -2.0, 1.5).abs()),
        1 => {
            let mut d = || rng.int(1, 8) as f64 * 0.25;
            [d(), d(), d()]
        }
        2 => [rng.range(0.05, 1.0), rng.range(0.05, 1.0), rng.range(0.05, 2.0)],
        _ => [rng.range(0.3, 4.0), rng.range(0.3, 15.0), rng.range(0.3, 5.0)],
    }
}

pub fn uuid(rng: &mut Rng) -> String {
    format!("{:016x}{:016x}", rng.u64(), rng.u64())
}

pub const FRAME_IDS: [FrameID; 10] = [
    FrameID::BaseLink,
    FrameID::Map,
    FrameID::CamBack,
    FrameID::CamBackLeft,
    FrameID::CamBackRight,
    FrameID::CamFront,
    FrameID::CamFrontLeft,
    FrameID::CamFrontRight,
    FrameID::CamTrafficLightNear,
    FrameID::CamTrafficLightFar,
];

pub fn stamp(rng: &mut Rng) -> NaiveDateTime {
    match rng.below(24) {
        0..=3 => time_us(rng.int(0, 3) * 100_000),
        // before the epoch, and centuries away
        4 => time_us(rng.int(-2_000_000_000_000_000, 0)) + Duration::nanoseconds(rng.int(0, 999)),
        5 => time_us(rng.int(-11_000_000_000_000_000, 250_000_000_000_000_000)),
        6..=8 => time_us(rng.int(0, 2_000_000_000_000_000)) + Duration::nanoseconds(rng.int(0, 999)),
        _ => time_us(rng.int(0, 2_000_000_000_000_000)),
    }
}

/// An object with arbitrary content.
pub fn object(rng: &mut Rng, label: Label) -> DynamicObject {
    DynamicObject {
        timestamp: stamp(rng),
        frame_id: if rng.chance(0.75) { FrameID::BaseLink } else { rng.pick(&FRAME_IDS).clone() },
        position: point(rng),
        orientation: quat(rng),
        size: size(rng),
        velocity: match rng.below(20) {
            0..=8 => Some(point(rng)),
            9 => Some([0.0; 3]),
            _ => None,
        },
        confidence: if rng.chance(0.05) { special(rng) } else { rng.f() },
        label,
        pointcloud_num: match rng.below(20) {
            0..=5 => None,
            6 => Some(*rng.pick(&[0, 255, 256, 65_535, 65_536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX])),
            _ => Some(rng.below(200)),
        },
        uuid: match rng.below(20) {
            0 => None,
            1 => Some(rng.pick(&["", "0", "a", "A", "tracker/7", "a b", "id:3", "車-1", "7#2", "x@y", "-1", "007", "{}", "None", "a.b.c"]).to_string()),
            _ => Some(uuid(rng)),
        },
    }
}

/// The same object but for one field.
pub fn sibling(rng: &mut Rng, o: &DynamicObject) -> DynamicObject {
    let mut s = o.clone();
    let i = rng.below(3);
    match rng.below(12) {
        10 => s.confidence = rng.f(),
        11 => s.pointcloud_num = if o.pointcloud_num.is_some() { None } else { Some(rng.below(200)) },
        0 => s.timestamp += Duration::nanoseconds(*rng.pick(&[1, 1_000, 1_000_000, 100_000_000])),
        1 => s.frame_id = if o.frame_id == FrameID::Map { FrameID::BaseLink } else { FrameID::Map },
        2 => s.position[i] += *rng.pick(&[1e-9, 1e-3, 0.5]) * (1.0 + o.position[i].abs()),
        3 => s.orientation = s.orientation.map(|v| -v),
        4 => s.size[i] *= *rng.pick(&[1.0 + 1e-12, 1.001, 2.0]),
        5 => s.velocity = if o.velocity.is_some() { None } else { Some([0.0; 3]) },
        6 => s.velocity = Some(point(rng)),
        7 => s.uuid = if o.uuid.is_some() { None } else { Some(String::new()) },
        8 => s.uuid = Some(o.uuid.clone().unwrap_or_default().to_uppercase() + " "),
        _ => s.uuid = Some(uuid(rng)),
    }
    s
}

/// All fields are equal (the equality of the crate ignores some of them).
pub fn same(a: &DynamicObject, b: &DynamicObject) -> bool {
    key(a) == key(b)
}

/// Everything an object consists of, comparable.
pub type Key = (
    (NaiveDateTime, u8),
    [u64; 3],
    [u64; 4],
    [u64; 3],
    Option<[u64; 3]>,
    u64,
    u8,
    Option<usize>,
    Option<String>,
);

pub fn key(o: &DynamicObject) -> Key {
    let b3 = |v: &V3| v.map(f64::to_bits);
    (
        (o.timestamp, o.frame_id.clone() as u8),
        b3(&o.position),
        o.orientation.map(f64::to_bits),
        b3(&o.size),
        o.velocity.as_ref().map(b3),
        o.confidence.to_bits(),
        o.label.clone() as u8,
        o.pointcloud_num,
        o.uuid.clone(),
    )
}

pub fn brief(o: &DynamicObject) -> String {
    format!(
        "{{{} at={:?} in={} pos={:?} q={:?} size={:?} v={:?} conf={:?} pts={:?} id={:?}}}",
        o.label, o.timestamp, o.frame_id, o.position, o.orientation, o.size, o.velocity, o.confidence, o.pointcloud_num, o.uuid
    )
}

pub fn briefs(objects: &[DynamicObject]) -> String {
    let n = objects.len();
    let mut s: Vec<String> = objects.iter().take(12).map(brief).collect();
    if n > 12 {
        s.push(format!("... {} in all", n));
    }
    format!("[{}]", s.join(", "))
}

/// The settings of an evaluation, in the terms of the specification.
#[derive(Clone, Debug)]
pub struct Settings {
    pub targets: Vec<Label>,
    pub names: Vec<String>,
    pub max_x: f64,
    pub max_y: f64,
    pub min_points: Option<usize>,
    pub uuids: Option<Vec<String>>,
    pub center: f64,
    pub plane: f64,
    pub iou2d: f64,
    pub iou3d: f64,
    pub task: EvaluationTask,
}

impl Settings {
    pub fn wide(rng: &mut Rng, n: usize) -> Self {
        let mut targets = LABELS.to_vec();
        rng.shuffle(&mut targets);
        targets.truncate(n.clamp(1, 8));
        let names = targets.iter().map(|l| label_name(rng, l)).collect();
        Settings {
            targets,
            names,
            max_x: 1e6,
            max_y: 1e6,
            min_points: None,
            uuids: None,
            center: *rng.pick(&[0.5, 1.0, 2.0, 3.7]),
            plane: *rng.pick(&[0.5, 1.0, 2.0, 3.1]),
            iou2d: 0.5,
            iou3d: 0.25,
            task: EvaluationTask::Detection,
        }
    }

    /// Lists targets again and again, in any order.
    pub fn lengthen(&mut self, rng: &mut Rng, n: usize) {
        let distinct = self.targets.len();
        while self.targets.len() < n {
            let i = rng.below(distinct);
            let at = rng.below(self.targets.len() + 1).max(distinct);
            self.targets.insert(at, self.targets[i].clone());
            self.names.insert(at, self.names[i].clone());
        }
    }

    pub fn filter(&self) -> Result<FilterParams, String> {
        let names: Vec<&str> = self.names.iter().map(|s| s.as_str()).collect();
        FilterParams::new(&names, self.max_x, self.max_y, self.min_points, self.uuids.clone())
            .map_err(|e| format!("FilterParams::new failed for {:?}: {}", self, e))
    }

    pub fn config(&self) -> Result<PerceptionEvaluationConfig, String> {
        let names: Vec<&str> = self.names.iter().map(|s| s.as_str()).collect();
        let metrics_params =
            MetricsParams::new(&names, self.center, self.plane, self.iou2d, self.iou3d)
                .map_err(|e| format!("MetricsParams::new failed for {:?}: {}", self, e))?;
        Ok(PerceptionEvaluationConfig {
            version: "annotation".into(),
            dataset_path: PathBuf::from("dataset"),
            evaluation_task: self.task.clone(),
            frame_id: FrameID::BaseLink,
            result_dir: PathBuf::from("result"),
            log_dir: PathBuf::from("result/log"),
            viz_dir: PathBuf::from("result/visualize"),
            filter_params: self.filter()?,
            metrics_params,
            load_raw_data: false,
        })
    }

    pub fn keeps(&self, o: &DynamicObject, is_gt: bool) -> bool {
        oracle::keeps(
            o, is_gt, &self.targets, self.max_x, self.max_y, self.min_points, &self.uuids,
        )
    }
}

/// How the confidences of a history are drawn.
#[derive(Clone, Copy, Debug)]
pub enum Confidence {
    Uniform,
    Close,
    Wild,
    Levels,
    Special,
}

/// One frame of input: estimates and ground truths.
#[derive(Clone, Debug)]
pub struct FrameIn {
    pub est: Vec<DynamicObject>,
    pub gt: FrameGroundTruth,
}

pub struct HistoryParams {
    pub frames: usize,
    pub per_label: usize,
    pub confidence: Confidence,
    pub tilted: bool,
    /// Also objects of other labels.
    pub foreign: bool,
    /// How the frames are dated.
    pub dates: Dates,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dates {
    Regular,
    Repeated,
    Same,
    Unordered,
    /// Regular, but some frames occur twice with all their content.
    Twice,
}

impl HistoryParams {
    pub fn draw(rng: &mut Rng) -> Self {
        if rng.below(300) == 0 {
            // long drives
            return HistoryParams {
                frames: 100 + rng.below(300),
                per_label: 1 + rng.below(4),
                confidence: *rng.pick(&[Confidence::Uniform, Confidence::Close, Confidence::Levels]),
                tilted: rng.chance(0.2),
                foreign: false,
                dates: Dates::Regular,
            };
        }
        let frames = match rng.below(10) {
            0 => 0,
            1 | 2 => 1,
            3..=7 => 2 + rng.below(4),
            8 => 6 + rng.below(10),
            _ => 20 + rng.below(40),
        };
        let per_label = match rng.below(8) {
            0 => 0,
            1..=5 => 1 + rng.below(5),
            6 => 6 + rng.below(10),
            _ => {
                if frames > 6 {
                    3
                } else {
                    20 + rng.below(30)
                }
            }
        };
        HistoryParams {
            frames,
            per_label,
            confidence: match rng.below(8) {
                0 => Confidence::Close,
                1 => Confidence::Wild,
                2 => Confidence::Levels,
                3 => Confidence::Special,
                _ => Confidence::Uniform,
            },
            tilted: rng.chance(0.2),
            foreign: rng.chance(0.5),
            dates: match rng.below(10) {
                0 => Dates::Repeated,
                1 => Dates::Same,
                2 => Dates::Unordered,
                3 => Dates::Twice,
                _ => Dates::Regular,
            },
        }
    }
}

/// Confidences at the ends of what is common, and beyond. (No negative zero: whether it ranks with
/// zero is left open.)
pub fn special(rng: &mut Rng) -> f64 {
    *rng.pick(&[0.0, 1.0, 5e-324, 1e-300, 1e-17, 1.0f64.next_down(), 1.0f64.next_up(), 2.0, 100.0, 1e300, f64::MAX, -5e-324, -1e-9, -1.0, f64::MIN])
}

pub fn confidence(rng: &mut Rng, kind: Confidence) -> f64 {
    match kind {
        Confidence::Uniform if rng.chance(0.03) => *rng.pick(&[0.0, 1.0]),
        Confidence::Uniform => rng.f(),
        Confidence::Special => special(rng),
        Confidence::Close => 0.5 + rng.below(1000) as f64 * 1e-13,
        Confidence::Wild => *rng.pick(&[-1.0, 1.0, 10.0, 1e6, -1e6]) * rng.f(),
        Confidence::Levels => rng.int(0, 3) as f64 * 0.25,
    }
}

/// An estimate of a ground truth: offset by a fraction of the threshold, turned by some angle.
pub fn estimate_of(rng: &mut Rng, gt: &DynamicObject, reach: f64, tilted: bool) -> DynamicObject {
    let mut e = gt.clone();
    let f = match rng.below(8) {
        0 if rng.chance(0.2) => 10f64.powf(rng.range(-10.0, -2.0)),
        0 => 0.0,
        1..=4 => rng.range(0.0, 0.9),
        5 => rng.range(0.9, 1.1),
        _ => rng.range(1.0, 2.5),
    };
    let dir = rng.range(-PI, PI);
    let dz = if rng.chance(0.3) { rng.range(-1.0, 1.0) } else { 0.0 };
    let n = (1.0f64 + dz * dz).sqrt();
    e.position = add(
        &gt.position,
        &[
            f * reach * dir.cos() / n,
            f * reach * dir.sin() / n,
            f * reach * dz / n,
        ],
    );
    if rng.chance(0.03) {
        // right above or below
        e.position = gt.position;
        e.position[2] += f * reach;
    }
    let turn = match rng.below(6) {
        0 => 0.0,
        1 => PI,
        2 => rng.range(-0.1, 0.1),
        3 => *rng.pick(&[PI / 2.0, -PI / 2.0, 3.0, -3.0]),
        _ => rng.range(-PI, PI),
    };
    e.orientation = qmul(&q_yaw(turn), &gt.orientation);
    if tilted && rng.chance(0.5) {
        let axis = [rng.normal(), rng.normal(), 0.0];
        e.orientation = qnorm(&qmul(&e.orientation, &q_axis(&axis, rng.range(-0.5, 0.5))));
    }
    if rng.chance(0.3) {
        e.orientation = e.orientation.map(|x| -x);
    }
    if rng.chance(0.5) {
        e.size = e.size.map(|s| s * rng.range(0.8, 1.25));
    }
    e.pointcloud_num = if rng.chance(0.5) { Some(rng.below(3)) } else { None };
    dress(rng, &mut e, 0.1);
    match rng.below(10) {
        0 => e.uuid = None,
        1 => {}
        _ => e.uuid = Some(uuid(rng)),
    }
    e
}

/// What is not to count when a pair is scored differs with some chance.
pub fn dress(rng: &mut Rng, e: &mut DynamicObject, p: f64) {
    if rng.chance(p) {
        e.velocity = match rng.below(4) {
            0 => None,
            1 => Some([0.0; 3]),
            // straight back
            2 => e.velocity.map(|v| v.map(|c| -c)),
            _ => Some(point(rng)),
        };
    }
    if rng.chance(p) {
        e.timestamp = match rng.below(3) {
            0 => stamp(rng),
            1 => e.timestamp + Duration::microseconds(rng.int(-100_000, 100_000)),
            _ => e.timestamp + Duration::nanoseconds(rng.int(-999, 999)),
        };
    }
    if rng.chance(p * 0.5) {
        e.frame_id = rng.pick(&FRAME_IDS).clone();
    }
    if rng.chance(p) {
        e.size = match rng.below(3) {
            0 => size(rng),
            1 => e.size.map(|s| s * (1.0 + rng.range(-1e-9, 1e-9))),
            _ => [e.size[1], e.size[0], e.size[2]],
        };
    }
    if rng.chance(p) {
        e.pointcloud_num = object(rng, Label::Car).pointcloud_num;
    }
}

/// A history of frames for the settings.
pub fn history(rng: &mut Rng, s: &Settings, p: &HistoryParams) -> Vec<FrameIn> {
    let reach = s.center.max(s.plane);
    let mut labels = s.targets.clone();
    if p.foreign {
        for l in LABELS.iter() {
            if !labels.contains(l) && rng.chance(0.4) {
                labels.push(l.clone());
            }
        }
    }
    // some labels have no ground truths, some no estimates
    let mute_gt: Vec<bool> = labels.iter().map(|_| rng.chance(0.12)).collect();
    let mute_est: Vec<bool> = labels.iter().map(|_| rng.chance(0.12)).collect();
    let area = match rng.below(40) {
        0..=11 => 8.0,
        12 => 400.0,
        13 => 2e4,
        _ => 60.0,
    };
    let (hilly, lined) = (rng.chance(0.1), rng.chance(0.1));
    let start = rng.int(0, 1_900_000_000_000_000);
    let mut frames: Vec<FrameIn> = Vec::new();
    for f in 0..p.frames {
        let stamp = match p.dates {
            Dates::Same => time_us(start),
            Dates::Repeated => time_us(start + f as i64 / 2 * 100_000),
            Dates::Unordered => time_us(start + rng.int(0, 6) * 50_000),
            _ => time_us(start + f as i64 * 100_000),
        };
        if p.dates == Dates::Twice && f > 0 && rng.chance(0.4) {
            let again: FrameIn = rng.pick(&frames).clone();
            frames.push(again);
            continue;
        }
        let mut est: Vec<DynamicObject> = Vec::new();
        let mut gts: Vec<DynamicObject> = Vec::new();
        for (k, label) in labels.iter().enumerate() {
            let count = if p.per_label == 0 { 0 } else { rng.below(p.per_label + 1) };
            for _ in 0..count {
                let mut gt = object(rng, label.clone());
                gt.timestamp = stamp;
                gt.position = [
                    rng.range(-area, area),
                    rng.range(-area, area),
                    if rng.chance(0.5) { 0.0 } else { rng.range(-2.0, 2.0) },
                ];
                if hilly && rng.chance(0.5) {
                    gt.position[2] = rng.range(-60.0, 60.0);
                }
                if lined && rng.chance(0.5) {
                    // straight ahead, beside, behind
                    gt.position[rng.below(2)] = 0.0;
                }
                gt.orientation = if p.tilted && rng.chance(0.5) { quat(rng) } else { upright(rng) };
                if rng.chance(0.9) {
                    gt.confidence = 1.0;
                }
                if rng.chance(0.1) {
                    gt.timestamp = self::stamp(rng);
                }
                let hits = match rng.below(8) {
                    0 => 0,
                    1 => 2,
                    _ => 1,
                };
                for _ in 0..hits {
                    if mute_est[k] {
                        continue;
                    }
                    let mut e = estimate_of(rng, &gt, reach, p.tilted);
                    e.confidence = confidence(rng, p.confidence);
                    est.push(e);
                }
                if !mute_gt[k] {
                    if rng.chance(0.02) {
                        // another one like it
                        let more = sibling(rng, &gt);
                        gts.push(more);
                    }
                    gts.push(gt);
                }
            }
            // false alarms
            if !mute_est[k] && p.per_label > 0 {
                for _ in 0..rng.below(3) {
                    let mut e = object(rng, label.clone());
                    e.timestamp = stamp;
                    e.position = [rng.range(-area, area), rng.range(-area, area), 0.0];
                    if lined && rng.chance(0.3) {
                        e.position[rng.below(2)] = 0.0;
                    }
                    e.orientation = upright(rng);
                    e.confidence = confidence(rng, p.confidence);
                    est.push(e);
                }
            }
        }
        if rng.chance(0.02) && !est.is_empty() {
            // an estimate all over again
            let again = rng.pick(&est).clone();
            est.push(again);
        }
        rng.shuffle(&mut est);
        rng.shuffle(&mut gts);
        frames.push(FrameIn {
            est,
            gt: FrameGroundTruth { timestamp: stamp, objects: gts },
        });
    }
    frames
}

/// A few labels, few ground truths, thousands of false alarms: more results of a label than any
/// usual drive has.
pub fn flood(rng: &mut Rng, s: &Settings, frames: usize, alarms: usize) -> Vec<FrameIn> {
    let p = HistoryParams {
        frames: frames.max(1),
        per_label: 1 + rng.below(2),
        confidence: Confidence::Uniform,
        tilted: false,
        foreign: false,
        dates: Dates::Regular,
    };
    let mut out = history(rng, s, &p);
    let k = rng.below(s.targets.len());
    let mut e = object(rng, s.targets[k].clone());
    e.frame_id = FrameID::BaseLink;
    e.orientation = upright(rng);
    let low = rng.chance(0.5);
    for f in 0..out.len() {
        e.timestamp = out[f].gt.timestamp;
        for _ in 0..alarms / out.len() {
            e.position = [rng.range(-60.0, 60.0), rng.range(-60.0, 60.0), 0.0];
            e.confidence = rng.f() * if low { 0.1 } else { 1.0 };
            e.uuid = if rng.chance(0.1) { None } else { Some(uuid(rng)) };
            out[f].est.push(e.clone());
        }
        // some detections rank below the flood
        rng.shuffle(&mut out[f].est);
    }
    out
}

/// The pose (q, t) applied to a box.
pub fn moved(o: &DynamicObject, q: &Q, t: &V3) -> DynamicObject {
    let mut m = o.clone();
    m.position = add(&qrot(q, &o.position), t);
    m.orientation = qmul(q, &o.orientation);
    m
}

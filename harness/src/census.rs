//! What kinds of inputs the monitors have seen: of every object, pair and frame that is judged,
//! which of a list of features it has, and which features occurred together.

use crate::oracle;
use perception_eval::frame_id::FrameID;
use perception_eval::label::Label;
use perception_eval::object::object3d::DynamicObject;
use serde_json::{json, Map, Value};
use std::collections::{HashMap, HashSet};
use std::f64::consts::PI;

const OBJECT: &[&str] = &[
    "id none", "id empty", "id short", "points none", "points 0", "points > 255", "points > 65535", "points > 32 bits",
    "confidence no number", "confidence < 0", "confidence 0", "confidence 1", "confidence > 1", "confidence < 1e-6", "confidence nearly 1",
    "label unknown", "label vehicle", "label two-wheeler", "label living", "velocity none", "velocity zero", "velocity > 30", "velocity backwards",
    "distance < 1", "distance < 10", "distance < 60", "distance < 200", "distance < 1e4", "distance >= 1e4", "on an axis", "x < 0", "y < 0", "z 0", "high up",
    "straight behind", "around the origin", "side < 0.1", "side > 20", "wider than long", "square", "taller than long", "narrow", "whole sizes",
    "turned with w < 0", "upright", "slightly tilted", "tilted", "steep", "upside down", "orientation not of unit length",
    "heading ahead", "heading back", "heading sideways", "heading other", "before 1970", "after 2100", "less than microseconds", "other frame",
    "not finite", "size 0", "size negative",
];

const PAIR: &[&str] = &[
    "same id", "both without id", "other id", "distance 0", "distance < 1e-9", "distance < 1e-3", "distance < 0.1", "distance < 1", "distance < 5", "distance >= 5",
    "heading equal", "heading differs < 1e-3", "heading differs < 0.5", "heading at right angles", "heading opposite", "headings on both sides of pi", "size equal", "size nearly equal", "volume ratio > 4",
    "same bottom", "same heights", "overlap in height", "apart in height", "times differ", "frames differ", "only differ in height", "velocities differ", "point numbers differ", "estimate farther", "both within 2 m", "orientation negated",
    "labels differ", "straight behind",
];

const FRAME: &[&str] = &[
    "no estimate", "1 estimate", "2-8 estimates", "9-32 estimates", "33-64 estimates", "65-128 estimates", "> 128 estimates",
    "no ground truth", "1 ground truth", "2-8 ground truths", "9-32 ground truths", "33-64 ground truths", "65-128 ground truths", "> 128 ground truths",
    "more estimates", "as many", "equal estimates", "estimates with equal ids", "equal ground truths", "ground truths with equal ids", "ids in both",
    "equal confidences", "one label", "> 3 labels", "label only estimated", "label only annotated", "> 4096 pairs", "unknown labels", "other frames",
];

#[derive(Default)]
pub struct Kind {
    seen: u64,
    counts: Vec<u64>,
    together: Vec<u64>,
    profiles: HashSet<u64>,
}

impl Kind {
    fn note(&mut self, mask: u64) {
        if self.counts.is_empty() {
            self.counts = vec![0; 64];
            self.together = vec![0; 64];
        }
        self.seen += 1;
        let mut m = mask;
        while m != 0 {
            let b = m.trailing_zeros() as usize;
            self.counts[b] += 1;
            self.together[b] |= mask;
            m &= m - 1;
        }
        if self.profiles.len() < 200_000 {
            self.profiles.insert(mask);
        }
    }

    fn merge(&mut self, other: &Kind) {
        if other.seen == 0 {
            return;
        }
        if self.counts.is_empty() {
            self.counts = vec![0; 64];
            self.together = vec![0; 64];
        }
        self.seen += other.seen;
        for b in 0..64 {
            self.counts[b] += other.counts[b];
            self.together[b] |= other.together[b];
        }
        if self.profiles.len() < 200_000 {
            self.profiles.extend(other.profiles.iter());
        }
    }

    fn show(&self, names: &[&str]) -> Value {
        let mut features = Map::new();
        for (b, name) in names.iter().enumerate() {
            features.insert(name.to_string(), json!(self.counts[b]));
        }
        let mut pairs = 0;
        for b in 0..names.len() {
            pairs += (self.together[b] >> b >> 1).count_ones();
        }
        json!({
            "seen": self.seen,
            "distinct_profiles": self.profiles.len(),
            "feature_pairs_seen_together": pairs,
            "feature_pairs_conceivable": names.len() * (names.len() - 1) / 2,
            "features": features,
        })
    }
}

/// Of each role (estimates, ground truths, other objects), of pairs and of frames.
#[derive(Default)]
pub struct Census {
    /// Is this case one of those that are looked at?
    pub on: bool,
    estimates: Kind,
    ground_truths: Kind,
    objects: Kind,
    pairs: Kind,
    frames: Kind,
}

/// More than these of one list are not looked at.
const LIMIT: usize = 24;

impl Census {
    pub fn estimates<'a, I: IntoIterator<Item = &'a DynamicObject>>(&mut self, list: I) {
        if self.on {
            list.into_iter().take(LIMIT).for_each(|x| self.estimates.note(object(x)));
        }
    }
    pub fn ground_truths<'a, I: IntoIterator<Item = &'a DynamicObject>>(&mut self, list: I) {
        if self.on {
            list.into_iter().take(LIMIT).for_each(|x| self.ground_truths.note(object(x)));
        }
    }
    pub fn objects<'a, I: IntoIterator<Item = &'a DynamicObject>>(&mut self, list: I) {
        if self.on {
            list.into_iter().take(LIMIT).for_each(|x| self.objects.note(object(x)));
        }
    }
    pub fn pair(&mut self, est: &DynamicObject, gt: &DynamicObject) {
        if self.on {
            self.pairs.note(pair(est, gt));
        }
    }
    pub fn frame(&mut self, est: &[DynamicObject], gt: &[DynamicObject]) {
        if !self.on {
            return;
        }
        self.frames.note(frame(est, gt));
        self.estimates(est);
        self.ground_truths(gt);
    }

    pub fn merge(&mut self, other: &Census) {
        self.estimates.merge(&other.estimates);
        self.ground_truths.merge(&other.ground_truths);
        self.objects.merge(&other.objects);
        self.pairs.merge(&other.pairs);
        self.frames.merge(&other.frames);
    }

    pub fn show(&self) -> Value {
        let mut out = Map::new();
        for (name, kind, names) in [
            ("estimates", &self.estimates, OBJECT),
            ("ground_truths", &self.ground_truths, OBJECT),
            ("objects", &self.objects, OBJECT),
            ("pairs", &self.pairs, PAIR),
            ("frames", &self.frames, FRAME),
        ] {
            if kind.seen > 0 {
                out.insert(name.into(), kind.show(names));
            }
        }
        Value::Object(out)
    }
}

struct Bits<'a> {
    names: &'a [&'a str],
    mask: u64,
}

impl Bits<'_> {
    fn set(&mut self, name: &str, on: bool) {
        if on {
            let b = self.names.iter().position(|n| *n == name).unwrap_or_else(|| panic!("no feature {:?}", name));
            self.mask |= 1 << b;
        }
    }
}

fn norm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}

fn object(x: &DynamicObject) -> u64 {
    let mut f = Bits { names: OBJECT, mask: 0 };
    let id = x.uuid.as_deref();
    f.set("id none", id.is_none());
    f.set("id empty", id == Some(""));
    f.set("id short", id.map_or(false, |i| !i.is_empty() && i.len() < 32));
    let n = x.pointcloud_num;
    f.set("points none", n.is_none());
    f.set("points 0", n == Some(0));
    f.set("points > 255", n.map_or(false, |n| n > 255));
    f.set("points > 65535", n.map_or(false, |n| n > 65_535));
    f.set("points > 32 bits", n.map_or(false, |n| n > u32::MAX as usize));
    let c = x.confidence;
    f.set("confidence no number", !c.is_finite());
    f.set("confidence < 0", c < 0.0);
    f.set("confidence 0", c == 0.0);
    f.set("confidence 1", c == 1.0);
    f.set("confidence > 1", c > 1.0);
    f.set("confidence < 1e-6", 0.0 < c && c < 1e-6);
    f.set("confidence nearly 1", 0.999 < c && c < 1.0);
    f.set("label unknown", x.label == Label::Unknown);
    f.set("label vehicle", matches!(x.label, Label::Car | Label::Truck | Label::Bus));
    f.set("label two-wheeler", matches!(x.label, Label::Bicycle | Label::Motorbike));
    f.set("label living", matches!(x.label, Label::Pedestrian | Label::Animal));
    let q = &x.orientation;
    let heading = oracle::yaw_of(q);
    match &x.velocity {
        None => f.set("velocity none", true),
        Some(v) => {
            f.set("velocity zero", norm(v) == 0.0);
            f.set("velocity > 30", norm(v) > 30.0);
            f.set("velocity backwards", v[0] * heading.cos() + v[1] * heading.sin() < 0.0);
        }
    }
    let p = &x.position;
    let r = p[0].hypot(p[1]);
    let band = match r {
        r if r < 1.0 => "distance < 1",
        r if r < 10.0 => "distance < 10",
        r if r < 60.0 => "distance < 60",
        r if r < 200.0 => "distance < 200",
        r if r < 1e4 => "distance < 1e4",
        _ => "distance >= 1e4",
    };
    f.set(band, true);
    f.set("on an axis", p[0] == 0.0 || p[1] == 0.0);
    f.set("x < 0", p[0] < 0.0);
    f.set("y < 0", p[1] < 0.0);
    f.set("z 0", p[2] == 0.0);
    f.set("high up", p[2].abs() > 5.0);
    let s = &x.size;
    f.set("straight behind", p[0] < 0.0 && p[1].abs() < s[0].abs().max(s[1].abs()) / 2.0);
    f.set("around the origin", r < s[0].abs().min(s[1].abs()) / 2.0);
    f.set("side < 0.1", s.iter().any(|l| l.abs() < 0.1));
    f.set("side > 20", s.iter().any(|l| l.abs() > 20.0));
    f.set("wider than long", s[0] > s[1]);
    f.set("square", s[0] == s[1]);
    f.set("taller than long", s[2] > s[1]);
    f.set("narrow", s[0].max(s[1]) > 10.0 * s[0].min(s[1]));
    f.set("whole sizes", s.iter().all(|l| (l * 4.0).fract() == 0.0));
    f.set("size 0", s.contains(&0.0));
    f.set("size negative", s.iter().any(|l| *l < 0.0));
    f.set("turned with w < 0", q[0] < 0.0);
    let n = norm(q);
    f.set("orientation not of unit length", !((n - 1.0).abs() < 1e-9));
    // the angle of the axis of height to the vertical
    let tilt = 2.0 * (q[1].hypot(q[2]) / n).min(1.0).asin();
    let lean = match tilt {
        0.0 => "upright",
        t if t < 0.01 => "slightly tilted",
        t if t < 0.5 => "tilted",
        t if t < PI / 2.0 => "steep",
        _ => "upside down",
    };
    f.set(lean, true);
    let h = heading.abs();
    let course = match h {
        h if h < 1e-3 => "heading ahead",
        h if (h - PI).abs() < 1e-3 => "heading back",
        h if (h - PI / 2.0).abs() < 1e-3 => "heading sideways",
        _ => "heading other",
    };
    f.set(course, true);
    let us = x.timestamp.timestamp();
    f.set("before 1970", us < 0);
    f.set("after 2100", us > 4_102_444_800);
    f.set("less than microseconds", x.timestamp.timestamp_subsec_nanos() % 1000 != 0);
    f.set("other frame", x.frame_id != FrameID::BaseLink);
    let numbers = p.iter().chain(q).chain(s).chain(x.velocity.iter().flatten());
    f.set("not finite", numbers.into_iter().any(|v| !v.is_finite()));
    f.mask
}

fn pair(e: &DynamicObject, g: &DynamicObject) -> u64 {
    let mut f = Bits { names: PAIR, mask: 0 };
    f.set("same id", e.uuid.is_some() && e.uuid == g.uuid);
    f.set("both without id", e.uuid.is_none() && g.uuid.is_none());
    f.set("other id", e.uuid.is_some() && g.uuid.is_some() && e.uuid != g.uuid);
    let d = norm(&[0, 1, 2].map(|i| e.position[i] - g.position[i]));
    let band = match d {
        d if d == 0.0 => "distance 0",
        d if d < 1e-9 => "distance < 1e-9",
        d if d < 1e-3 => "distance < 1e-3",
        d if d < 0.1 => "distance < 0.1",
        d if d < 1.0 => "distance < 1",
        d if d < 5.0 => "distance < 5",
        _ => "distance >= 5",
    };
    f.set(band, true);
    let (a, b) = (oracle::yaw_of(&e.orientation), oracle::yaw_of(&g.orientation));
    let diff = oracle::angle_diff(a, b);
    f.set("heading equal", diff == 0.0);
    f.set("heading differs < 1e-3", diff > 0.0 && diff < 1e-3);
    f.set("heading differs < 0.5", (1e-3..0.5).contains(&diff));
    f.set("heading at right angles", (diff - PI / 2.0).abs() < 1e-2);
    f.set("heading opposite", PI - diff < 1e-2);
    f.set("headings on both sides of pi", (a - b).abs() > PI);
    let ratio = (e.size.iter().product::<f64>() / g.size.iter().product::<f64>()).abs();
    f.set("size equal", e.size == g.size);
    f.set("size nearly equal", e.size != g.size && e.size.iter().zip(&g.size).all(|(a, b)| (a - b).abs() <= 1e-6 * b.abs()));
    f.set("volume ratio > 4", !(0.25..4.0).contains(&ratio));
    let span = |x: &DynamicObject| (x.position[2] - x.size[2] / 2.0, x.position[2] + x.size[2] / 2.0);
    let ((e0, e1), (g0, g1)) = (span(e), span(g));
    f.set("same bottom", (e0 - g0).abs() < 1e-9);
    f.set("same heights", e0 == g0 && e1 == g1);
    let overlap = e1.min(g1) - e0.max(g0);
    f.set("overlap in height", overlap > 0.0 && overlap < (e1 - e0).max(g1 - g0));
    f.set("apart in height", overlap < 0.0);
    f.set("times differ", e.timestamp != g.timestamp);
    f.set("frames differ", e.frame_id != g.frame_id);
    f.set("only differ in height", d > 0.0 && e.position[..2] == g.position[..2]);
    f.set("velocities differ", e.velocity != g.velocity);
    f.set("point numbers differ", e.pointcloud_num != g.pointcloud_num);
    let r = |x: &DynamicObject| x.position[0].hypot(x.position[1]);
    f.set("estimate farther", r(e) > r(g));
    f.set("both within 2 m", r(e) < 2.0 && r(g) < 2.0);
    f.set("orientation negated", e.orientation == g.orientation.map(|v| -v));
    f.set("labels differ", e.label != g.label);
    f.set("straight behind", e.position[0] < 0.0 && g.position[0] < 0.0 && e.position[1] * g.position[1] < 0.0);
    f.mask
}

fn frame(est: &[DynamicObject], gt: &[DynamicObject]) -> u64 {
    let mut f = Bits { names: FRAME, mask: 0 };
    for (n, one, names) in [
        (est.len(), ["no estimate", "1 estimate"], ["2-8 estimates", "9-32 estimates", "33-64 estimates", "65-128 estimates", "> 128 estimates"]),
        (gt.len(), ["no ground truth", "1 ground truth"], ["2-8 ground truths", "9-32 ground truths", "33-64 ground truths", "65-128 ground truths", "> 128 ground truths"]),
    ] {
        let name = match n {
            0 | 1 => one[n],
            2..=8 => names[0],
            9..=32 => names[1],
            33..=64 => names[2],
            65..=128 => names[3],
            _ => names[4],
        };
        f.set(name, true);
    }
    f.set("more estimates", est.len() > gt.len());
    f.set("as many", est.len() == gt.len());
    f.set("> 4096 pairs", est.len() * gt.len() > 4096);
    let (e, g) = (&est[..est.len().min(LIMIT)], &gt[..gt.len().min(LIMIT)]);
    let twice = |list: &[DynamicObject]| {
        let mut at: HashMap<[u64; 3], usize> = HashMap::new();
        list.iter().enumerate().any(|(i, x)| {
            let first = *at.entry(x.position.map(f64::to_bits)).or_insert(i);
            first != i && list[first] == *x
        })
    };
    let ids = |list: &[DynamicObject]| {
        let all: Vec<String> = list.iter().filter_map(|x| x.uuid.clone()).collect();
        let n = all.len();
        let set: HashSet<String> = all.into_iter().collect();
        (set.len() < n, set)
    };
    f.set("equal estimates", twice(e));
    f.set("equal ground truths", twice(g));
    let ((e_twice, e_ids), (g_twice, g_ids)) = (ids(e), ids(g));
    f.set("estimates with equal ids", e_twice);
    f.set("ground truths with equal ids", g_twice);
    f.set("ids in both", !e_ids.is_disjoint(&g_ids));
    let confidences: HashSet<u64> = e.iter().map(|x| x.confidence.to_bits()).collect();
    f.set("equal confidences", confidences.len() < e.len());
    let e_labels: HashSet<&Label> = e.iter().map(|x| &x.label).collect();
    let g_labels: HashSet<&Label> = g.iter().map(|x| &x.label).collect();
    let labels = e_labels.union(&g_labels).count();
    f.set("one label", labels == 1);
    f.set("> 3 labels", labels > 3);
    f.set("label only estimated", !e_labels.is_subset(&g_labels));
    f.set("label only annotated", !g_labels.is_subset(&e_labels));
    f.set("unknown labels", e_labels.contains(&Label::Unknown) || g_labels.contains(&Label::Unknown));
    f.set("other frames", e.iter().chain(g).any(|x| x.frame_id != FrameID::BaseLink));
    f.mask
}

//! Synthetic datasets: consistent by construction, with every trap a loader can fall into, and the
//! faults that make them inconsistent.

use crate::gen;
use crate::oracle::{self, V3};
use crate::rng::Rng;
use perception_eval::label::Label;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub const VERSION: &str = "annotation";

pub const TABLES: [&str; 13] = [
    "attribute",
    "calibrated_sensor",
    "category",
    "ego_pose",
    "instance",
    "log",
    "map",
    "sample",
    "sample_annotation",
    "sample_data",
    "scene",
    "sensor",
    "visibility",
];

/// Names of the documented naming scheme and their labels.
pub const NAMES: &[(&str, Label)] = &[
    ("car", Label::Car),
    ("vehicle.car", Label::Car),
    ("vehicle.construction", Label::Car),
    ("vehicle.emergency (ambulance & police)", Label::Car),
    ("vehicle.police", Label::Car),
    ("vehicle.fire", Label::Car),
    ("vehicle.ambulance", Label::Car),
    ("truck", Label::Truck),
    ("vehicle.truck", Label::Truck),
    ("trailer", Label::Truck),
    ("vehicle.trailer", Label::Truck),
    ("bus", Label::Bus),
    ("vehicle.bus", Label::Bus),
    ("vehicle.bus (bendy & rigid)", Label::Bus),
    ("vehicle.bus.rigid", Label::Bus),
    ("vehicle.bus.bendy", Label::Bus),
    ("bicycle", Label::Bicycle),
    ("vehicle.bicycle", Label::Bicycle),
    ("motorbike", Label::Motorbike),
    ("vehicle.motorcycle", Label::Motorbike),
    ("pedestrian", Label::Pedestrian),
    ("pedestrian.adult", Label::Pedestrian),
    ("pedestrian.child", Label::Pedestrian),
    ("pedestrian.construction_worker", Label::Pedestrian),
    ("pedestrian.personal_mobility", Label::Pedestrian),
    ("pedestrian.police_officer", Label::Pedestrian),
    ("pedestrian.stroller", Label::Pedestrian),
    ("pedestrian.wheelchair", Label::Pedestrian),
    ("human.pedestrian.adult", Label::Pedestrian),
    ("human.pedestrian.child", Label::Pedestrian),
    ("human.pedestrian.construction_worker", Label::Pedestrian),
    ("human.pedestrian.personal_mobility", Label::Pedestrian),
    ("human.pedestrian.police_officer", Label::Pedestrian),
    ("human.pedestrian.stroller", Label::Pedestrian),
    ("human.pedestrian.wheelchair", Label::Pedestrian),
    ("animal", Label::Animal),
    ("unknown", Label::Unknown),
    ("movable_object.barrier", Label::Unknown),
    ("movable_object.debris", Label::Unknown),
    ("movable_object.pushable_pullable", Label::Unknown),
    ("movable_object.trafficcone", Label::Unknown),
    ("movable_object.traffic_cone", Label::Unknown),
    ("static_object.bicycle_rack", Label::Unknown),
    ("static_object.bollard", Label::Unknown),
];

/// Label of a (lower or upper case ASCII) name.
pub fn label_of(name: &str) -> Label {
    let lower = name.to_lowercase();
    NAMES
        .iter()
        .find(|(n, _)| *n == lower)
        .map_or(Label::Unknown, |(_, l)| l.clone())
}

pub const CHANNELS: &[(&str, &str)] = &[
    ("camera", "CAM_BACK"),
    ("camera", "CAM_BACK_LEFT"),
    ("camera", "CAM_BACK_RIGHT"),
    ("camera", "CAM_FRONT"),
    ("camera", "CAM_FRONT_LEFT"),
    ("camera", "CAM_FRONT_RIGHT"),
    ("camera", "CAM_FRONT_ZOOMED"),
    ("camera", "CAM_TRAFFIC_LIGHT_NEAR"),
    ("camera", "CAM_TRAFFIC_LIGHT_FAR"),
    ("lidar", "LIDAR_TOP"),
    ("radar", "RADAR_BACK_LEFT"),
    ("radar", "RADAR_BACK_RIGHT"),
    ("radar", "RADAR_FRONT"),
    ("radar", "RADAR_FRONT_LEFT"),
    ("radar", "RADAR_FRONT_RIGHT"),
];

#[derive(Clone, Debug, Default)]
pub struct Ds {
    pub tables: BTreeMap<&'static str, Vec<Value>>,
    /// Some map lists a log that does not exist.
    pub unknown_logs: bool,
}

pub fn text<'v>(v: &'v Value, key: &str) -> &'v str {
    v[key].as_str().unwrap_or_else(|| panic!("harness: {} of {}", key, v))
}

/// Microseconds of a timestamp in the file.
pub fn micros(v: &Value) -> i64 {
    match v["timestamp"].as_i64() {
        Some(t) => t,
        None => v["timestamp"].as_f64().expect("harness: timestamp").floor() as i64,
    }
}

pub fn vec3(v: &Value) -> V3 {
    [0, 1, 2].map(|i| v[i].as_f64().expect("harness: vector"))
}

pub fn quat4(v: &Value) -> oracle::Q {
    [0, 1, 2, 3].map(|i| v[i].as_f64().expect("harness: quaternion"))
}

impl Ds {
    pub fn table(&self, name: &str) -> &[Value] {
        self.tables.get(name).map_or(&[], |t| t.as_slice())
    }

    pub fn find(&self, table: &str, token: &str) -> &Value {
        self.table(table)
            .iter()
            .find(|v| text(v, "token") == token)
            .unwrap_or_else(|| panic!("harness: {} {}", table, token))
    }

    fn push(&mut self, table: &'static str, v: Value) {
        self.tables.entry(table).or_default().push(v);
    }

    /// Writes the tables, the records in a random order.
    pub fn write(&self, root: &Path, rng: &mut Rng, shuffled: bool) {
        let dir = root.join(VERSION);
        std::fs::create_dir_all(&dir).expect("harness: dataset directory");
        for name in TABLES {
            let mut records = self.table(name).to_vec();
            if shuffled {
                rng.shuffle(&mut records);
            }
            let all = Value::Array(records);
            let bytes = if rng.chance(0.5) { serde_json::to_vec(&all) } else { serde_json::to_vec_pretty(&all) };
            std::fs::write(dir.join(format!("{}.json", name)), bytes.expect("harness: json")).expect("harness: table");
        }
    }

    pub fn len(&self) -> usize {
        self.tables.values().map(|t| t.len()).sum()
    }
}

pub fn token(rng: &mut Rng) -> String {
    // some share long prefixes
    if rng.chance(0.2) {
        format!("{:032x}", rng.below(1 << 20))
    } else {
        gen::uuid(rng)
    }
}

/// A token that is not used yet.
struct Tokens(std::collections::HashSet<String>);

impl Tokens {
    fn fresh(&mut self, rng: &mut Rng) -> String {
        loop {
            let t = token(rng);
            if self.0.insert(t.clone()) {
                return t;
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct DsParams {
    pub scenes: usize,
    pub samples: usize,
    pub instances: usize,
    /// Extra cameras and radars.
    pub sensors: usize,
    pub sweeps: usize,
}

impl DsParams {
    pub fn draw(rng: &mut Rng, thorough: bool) -> Self {
        let k = if thorough && rng.chance(0.2) { 3 } else { 1 };
        DsParams {
            scenes: 1 + rng.below(3) * k,
            samples: 1 + rng.below(5) * k,
            instances: rng.below(6) * k,
            sensors: rng.below(4),
            sweeps: rng.below(3),
        }
    }
    /// More of everything, or very much of one thing.
    pub fn rich(rng: &mut Rng) -> Self {
        let mut p = DsParams::draw(rng, false);
        if rng.chance(0.08) {
            // hours of recordings, or all that a town has on its roads
            let (scenes, samples, instances) = match rng.below(3) {
                0 => (1, 1 + rng.below(2), 250 + rng.below(500)),
                1 => (1, 250 + rng.below(500), rng.below(3)),
                _ => (250 + rng.below(300), 1, rng.below(2)),
            };
            return DsParams { scenes, samples, instances, sensors: rng.below(2), sweeps: rng.below(2) };
        }
        match rng.below(4) {
            0 => p.instances = 20 + rng.below(150),
            1 => p.samples = 20 + rng.below(80),
            2 => p.scenes = 5 + rng.below(20),
            _ => {
                p.scenes = 1 + rng.below(6);
                p.samples = 1 + rng.below(20);
                p.instances = rng.below(20);
                p.sensors = rng.below(8);
                p.sweeps = rng.below(12);
            }
        }
        p
    }
    pub fn small(rng: &mut Rng) -> Self {
        DsParams {
            scenes: 1 + rng.below(2),
            samples: 1 + rng.below(3),
            instances: 1 + rng.below(2),
            sensors: rng.below(2),
            sweeps: rng.below(2),
        }
    }
}

fn map_coord(rng: &mut Rng) -> f64 {
    match rng.below(4) {
        0 => rng.range(-50.0, 50.0),
        1 => rng.int(-20, 20) as f64 * 0.5,
        _ => rng.range(-3000.0, 9e4),
    }
}

fn words(rng: &mut Rng) -> String {
    let pool = ["parked", "Übergang", "rain, night", "", "\"quoted\"", "line\nbreak", "東京", "a\\b", "x"];
    let n = rng.below(4);
    (0..n).map(|_| *rng.pick(&pool)).collect::<Vec<_>>().join(" ")
}

/// A number of points or records, mostly small, else around the limits of integer types.
pub fn count(rng: &mut Rng, usual: usize) -> usize {
    if rng.chance(0.85) {
        return rng.below(usual);
    }
    let edge = *rng.pick(&[0usize, 1 << 7, 1 << 8, 1000, 10_000, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 53]);
    match rng.below(8) {
        0 => edge * (2 + rng.below(1000)),
        _ => (edge + rng.below(3)).saturating_sub(rng.below(3)),
    }
}

/// Any text: of the pool, long, or made of single characters.
pub fn any_text(rng: &mut Rng) -> String {
    match rng.below(5) {
        0 => words(rng),
        1 => words(rng).repeat(1 + rng.below(200)),
        2 => (0..rng.below(40)).map(|_| *rng.pick(&['a', 'Z', '0', ' ', '\t', '\n', '\r', '\0', '\u{7f}', '"', '\\', '/', '\'', 'é', '\u{301}', '東', '🚗', '\u{feff}', '\u{202e}', '~', '%', '$', '&', '<', '-', '.', ','])).collect(),
        3 => rng.pick(&["null", "true", "0", "-1.5e3", "[]", "{}", "~", " x", "x ", "\u{a0}", "NaN", "N/A", "none", "unknown", "%20", "a\u{0}b"]).to_string(),
        _ => gen::uuid(rng),
    }
}

fn any_number(rng: &mut Rng) -> Value {
    match rng.below(8) {
        0 => json!(0),
        1 => json!(-0.0),
        2 => json!(rng.int(-1_000_000, 1_000_000)),
        3 => json!(gen::magnitude(rng, -300.0, 300.0)),
        4 => json!(gen::magnitude(rng, -12.0, 12.0)),
        5 => json!(rng.int(-4, 4) as f64 / 8.0),
        6 => json!(*rng.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e22, 0.1, 1.0 / 3.0])),
        _ => json!(rng.range(-2.0, 2.0)),
    }
}

/// Gives fields that no link depends on values that are unusual and yet allowed.
pub fn unusual_values(rng: &mut Rng, ds: &mut Ds) {
    let often = *rng.pick(&[0.05, 0.3, 1.0]);
    for table in TABLES {
        for v in ds.tables.get_mut(table).unwrap().iter_mut() {
            for (k, x) in v.as_object_mut().unwrap().iter_mut() {
                if !rng.chance(often) {
                    continue;
                }
                match (k.as_str(), table) {
                    ("rotation", _) => *x = json!([any_number(rng), any_number(rng), any_number(rng), any_number(rng)]),
                    ("translation" | "size", _) => *x = json!([any_number(rng), any_number(rng), any_number(rng)]),
                    ("camera_intrinsic", _) if *x != json!([]) => {
                        let mut row = || json!([any_number(rng), any_number(rng), any_number(rng)]);
                        *x = json!([row(), row(), row()]);
                    }
                    ("description" | "name" | "location" | "vehicle" | "category", _) => *x = json!(any_text(rng)),
                    ("filename", "map") => *x = json!(any_text(rng)),
                    ("logfile", _) => *x = json!(any_text(rng)),
                    ("num_lidar_pts" | "num_radar_pts", _) => *x = json!(count(rng, 10)),
                    ("attribute_tokens" | "log_tokens", _) => {
                        let list = x.as_array_mut().unwrap();
                        for _ in 0..rng.below(4) {
                            if !list.is_empty() {
                                let again = rng.pick(list).clone();
                                let at = if rng.chance(0.5) { list.len() } else { rng.below(list.len() + 1) };
                                list.insert(at, again);
                            }
                        }
                    }
                    ("is_key_frame", _) => *x = json!(rng.chance(0.5)),
                    ("date_captured", _) => *x = json!(format!("{:04}-{:02}-{:02}", 1 + rng.below(9999), 1 + rng.below(12), 1 + rng.below(28))),
                    _ => {}
                }
            }
        }
    }
}

fn extras(rng: &mut Rng, v: &mut Value) {
    // files have more fields than are read
    if rng.chance(0.3) {
        let m: &mut Map<String, Value> = v.as_object_mut().unwrap();
        m.insert("height".into(), json!(rng.below(2000)));
        m.insert("note".into(), json!({"nested": [1, null, "x"]}));
    }
}

/// Pose of the vehicle: position in the map and orientation.
fn pose(rng: &mut Rng, origin: &V3) -> (V3, oracle::Q) {
    let t = [map_coord(rng), map_coord(rng), if rng.chance(0.5) { 0.0 } else { rng.range(-5.0, 50.0) }];
    let t = [0, 1, 2].map(|i| t[i] + origin[i]);
    let q = match rng.below(4) {
        0 => gen::upright(rng),
        1 => [1.0, 0.0, 0.0, 0.0],
        _ => gen::quat(rng),
    };
    (t, q)
}

pub fn consistent(rng: &mut Rng, p: &DsParams) -> Ds {
    let mut ds = Ds::default();
    // now and then coordinates of a map projection
    let origin = if rng.chance(0.12) { [gen::magnitude(rng, 4.0, 7.0), gen::magnitude(rng, 4.0, 7.0), rng.range(-400.0, 4e3)] } else { [0.0; 3] };
    let mut tokens = Tokens(Default::default());
    for t in TABLES {
        ds.tables.insert(t, Vec::new());
    }

    // sensors
    struct Sensor {
        modality: &'static str,
        calibrated: Vec<String>,
    }
    let mut sensors: Vec<Sensor> = Vec::new();
    let mut kinds: Vec<(&str, &str)> = Vec::new();
    if rng.chance(0.93) {
        kinds.push(("lidar", if rng.chance(0.5) { "LIDAR_TOP" } else { "LIDAR_CONCAT" }));
        if rng.chance(0.25) {
            kinds.push(("lidar", "LIDAR_CONCAT"));
        }
    }
    for _ in 0..p.sensors {
        kinds.push(*rng.pick(CHANNELS));
    }
    if kinds.is_empty() {
        kinds.push(("camera", "CAM_FRONT"));
    }
    rng.shuffle(&mut kinds);
    for (modality, channel) in kinds {
        let st = tokens.fresh(rng);
        let mut v = json!({"token": st, "modality": modality, "channel": channel});
        extras(rng, &mut v);
        ds.push("sensor", v);
        let mut calibrated = Vec::new();
        for _ in 0..1 + rng.below(2) {
            let ct = tokens.fresh(rng);
            let intrinsic = if modality == "camera" || rng.chance(0.1) {
                json!([[rng.range(500.0, 2000.0), 0.0, rng.range(0.0, 900.0)], [0.0, rng.range(500.0, 2000.0), 490.5], [0, 0, 1]])
            } else {
                json!([])
            };
            let q = gen::quat(rng);
            ds.push(
                "calibrated_sensor",
                json!({"token": ct, "sensor_token": st, "rotation": q, "camera_intrinsic": intrinsic,
                       "translation": [rng.range(-2.0, 2.0), rng.range(-2.0, 2.0), rng.range(0.0, 3.0)]}),
            );
            calibrated.push(ct);
        }
        sensors.push(Sensor { modality, calibrated });
    }

    // categories, attributes, visibility, logs, maps
    let mut categories = Vec::new();
    for _ in 0..1 + rng.below(4) {
        let name = match rng.below(8) {
            0 => words(rng),
            1 => "vehicle.spaceship".to_string(),
            2 => rng.pick(NAMES).0.to_uppercase(),
            _ => rng.pick(NAMES).0.to_string(),
        };
        let t = tokens.fresh(rng);
        ds.push("category", json!({"token": t, "description": words(rng), "name": name}));
        categories.push(t);
    }
    let mut attributes = Vec::new();
    for _ in 0..rng.below(4) {
        let t = tokens.fresh(rng);
        ds.push("attribute", json!({"token": t, "description": words(rng), "name": words(rng)}));
        attributes.push(t);
    }
    let mut visibilities = Vec::new();
    let levels = ["v0-40", "v40-60", "v60-80", "v80-100", "none", "partial", "most", "full"];
    for i in 0..rng.below(5) {
        let t = match rng.below(3) {
            0 => format!("{}", i + 1),
            1 => format!("{}{}", rng.pick(&levels), i),
            _ => tokens.fresh(rng),
        };
        // a token of this table is any text
        let t: String = match rng.below(12) {
            0 if i > 0 => {
                let near: &String = rng.pick(&visibilities);
                match rng.below(6) {
                    0 => format!("0{}", near),
                    1 => format!("{} ", near),
                    2 => format!(" {}", near),
                    3 => near.to_uppercase(),
                    4 => format!("{}.0", near),
                    _ => format!("é{}", near),
                }
            }
            1 => rng.pick(&["0", "00", "-1", " ", "v0-40", "none", "null", "1e0"]).to_string(),
            _ => t,
        };
        if visibilities.contains(&t) {
            continue;
        }
        ds.push("visibility", json!({"token": t, "level": *rng.pick(&levels), "description": words(rng)}));
        visibilities.push(t);
    }
    let mut logs = Vec::new();
    for _ in 0..1 + rng.below(3) {
        let t = tokens.fresh(rng);
        let date = match rng.below(4) {
            0 => Value::Null,
            1 => json!("2020-02-29"),
            _ => json!(format!("2018-{:02}-{:02}", 1 + rng.below(12), 1 + rng.below(28))),
        };
        ds.push(
            "log",
            json!({"token": t, "date_captured": date, "location": words(rng), "vehicle": words(rng),
                   "logfile": *rng.pick(&["", "n015-2018-07-24-11-22-45+0800", "logs/a b.log"])}),
        );
        logs.push(t);
    }
    for i in 0..rng.below(3) {
        let mut listed: Vec<String> = logs.iter().filter(|_| rng.chance(0.6)).cloned().collect();
        if rng.chance(0.3) {
            let at = rng.below(listed.len() + 1);
            listed.insert(at, tokens.fresh(rng));
            ds.unknown_logs = true;
        }
        let t = tokens.fresh(rng);
        ds.push(
            "map",
            json!({"token": t, "log_tokens": listed, "filename": format!("maps/{}.png", i), "category": "semantic_prior"}),
        );
    }

    // scenes with their samples and sensor data
    let seconds = match rng.below(16) {
        // before 1970, from 2038 on, in the first seconds
        0 => rng.int(-2_000_000_000, 0),
        1 => rng.int(2_147_483_000, 9_000_000_000),
        2 => rng.int(0, 1),
        _ => rng.int(0, 1_700_000_000),
    };
    let mut start = seconds * 1_000_000 + rng.int(0, 999_999);
    let step = *rng.pick(&[500_000i64, 100_000, 1, 33_333]);
    let mut n_file = 0;
    for s in 0..p.scenes {
        let scene = tokens.fresh(rng);
        let n = 1 + rng.below(p.samples);
        let ids: Vec<String> = (0..n).map(|_| tokens.fresh(rng)).collect();
        let mut times: Vec<i64> = (0..n).map(|i| start + i as i64 * step + if step > 10 { rng.int(-3, 3) } else { 0 }).collect();
        if rng.chance(0.15) {
            // the order of the chain is not the order of time
            rng.shuffle(&mut times);
        }
        // the next scene: later, earlier or at the same time
        start = match rng.below(4) {
            0 => start - rng.int(0, 10) * step,
            1 => start,
            _ => start + rng.int(1, 30) * step,
        };
        let log = rng.pick(&logs).clone();
        ds.push(
            "scene",
            json!({"token": scene, "name": format!("scene-{:04}", s), "description": words(rng), "log_token": log,
                   "nbr_samples": n, "first_sample_token": ids[0], "last_sample_token": ids[n - 1]}),
        );
        for i in 0..n {
            // (the JSON parser is exact up to 2^54 in the last written digit)
            let stamp = if rng.chance(0.1) && times[i].abs() < 1_799_000_000_000_000 { json!(times[i] as f64) } else { json!(times[i]) };
            ds.push(
                "sample",
                json!({"token": ids[i], "timestamp": stamp, "scene_token": scene,
                       "prev": if i == 0 { "" } else { &ids[i - 1] }, "next": if i + 1 == n { "" } else { &ids[i + 1] }}),
            );
        }

        // poses of the vehicle: one per sample, used by the records at its time
        let mut chains: Vec<Vec<usize>> = vec![Vec::new(); sensors.len()];
        for i in 0..n {
            let (t0, q0) = pose(rng, &origin);
            let mut shared: Option<String> = None;
            for (k, sensor) in sensors.iter().enumerate() {
                let mut stamps: Vec<(i64, bool)> = Vec::new();
                let lidar = sensor.modality == "lidar";
                if rng.chance(0.92) {
                    // at the time of the sample, or not quite
                    let off = if lidar {
                        if rng.chance(0.12) { *rng.pick(&[-1i64, 1, 20_000, -20_000]) } else { 0 }
                    } else if rng.chance(0.4) {
                        0
                    } else {
                        rng.int(-40_000, 40_000)
                    };
                    stamps.push((times[i] + off, true));
                }
                for w in 0..rng.below(p.sweeps + 1) {
                    stamps.push((times[i] + (w as i64 + 1) * rng.int(1, 50_000), false));
                }
                if rng.chance(0.5) {
                    stamps.reverse();
                }
                for (stamp, key) in stamps {
                    let at_sample = stamp == times[i];
                    // all lidars at the time of the sample see the same pose
                    let ego = match (&shared, at_sample) {
                        (Some(e), true) if rng.chance(0.5) => e.clone(),
                        _ => {
                            let e = tokens.fresh(rng);
                            let (t, q) = if at_sample && lidar { (t0, q0) } else { pose(rng, &origin) };
                            let estamp = if rng.chance(0.9) { stamp } else { stamp + rng.int(-5, 5) };
                            ds.push("ego_pose", json!({"token": e, "timestamp": estamp, "rotation": q, "translation": t}));
                            if at_sample && lidar {
                                shared = Some(e.clone());
                            }
                            e
                        }
                    };
                    let (format, ext) = match sensor.modality {
                        "camera" => *rng.pick(&[("jpeg", "jpg"), ("jpg", "jpg"), ("png", "png")]),
                        _ => *rng.pick(&[("bin", "bin"), ("pcd", "pcd.bin")]),
                    };
                    let folder = if lidar { *rng.pick(&["LIDAR_TOP", "lidar"]) } else { "CAM" };
                    n_file += 1;
                    let mut v = json!({
                        "token": tokens.fresh(rng), "fileformat": format, "is_key_frame": key,
                        "filename": format!("{}/{}/{:05}.{}", if key { "samples" } else { "sweeps" }, folder, n_file, ext),
                        "timestamp": stamp, "sample_token": ids[i], "ego_pose_token": ego,
                        "calibrated_sensor_token": rng.pick(&sensor.calibrated).clone(), "prev": "", "next": "",
                    });
                    extras(rng, &mut v);
                    chains[k].push(ds.table("sample_data").len());
                    ds.push("sample_data", v);
                }
            }
        }
        for chain in chains {
            let data = ds.tables.get_mut("sample_data").unwrap();
            let ids: Vec<String> = chain.iter().map(|i| text(&data[*i], "token").to_string()).collect();
            for (j, i) in chain.iter().enumerate() {
                if j > 0 {
                    data[*i]["prev"] = json!(ids[j - 1]);
                }
                if j + 1 < ids.len() {
                    data[*i]["next"] = json!(ids[j + 1]);
                }
            }
        }

        // objects in this scene
        for _ in 0..rng.below(p.instances + 1) {
            let inst = tokens.fresh(rng);
            let mut seen: Vec<usize> = (0..n).filter(|_| rng.chance(0.7)).collect();
            if seen.is_empty() {
                seen.push(rng.below(n));
            }
            if rng.chance(0.1) {
                rng.shuffle(&mut seen);
            }
            let anns: Vec<String> = seen.iter().map(|_| tokens.fresh(rng)).collect();
            let size = gen::size(rng);
            for (j, i) in seen.iter().enumerate() {
                let (t, q) = pose(rng, &origin);
                let mut attrs: Vec<&String> = attributes.iter().filter(|_| rng.chance(0.4)).collect();
                if rng.chance(0.05) && !attrs.is_empty() {
                    let again = *rng.pick(&attrs);
                    attrs.push(again);
                }
                let vis = if visibilities.is_empty() || rng.chance(0.3) { String::new() } else { rng.pick(&visibilities).clone() };
                ds.push(
                    "sample_annotation",
                    json!({"token": anns[j], "num_lidar_pts": count(rng, 500), "num_radar_pts": count(rng, 5),
                           "size": if rng.chance(0.8) { size } else { gen::size(rng) }, "rotation": q, "translation": t,
                           "sample_token": ids[*i], "instance_token": inst, "attribute_tokens": attrs,
                           "visibility_token": vis,
                           "prev": if j == 0 { "" } else { &anns[j - 1] },
                           "next": if j + 1 == anns.len() { "" } else { &anns[j + 1] }}),
                );
            }
            let category = rng.pick(&categories).clone();
            ds.push(
                "instance",
                json!({"token": inst, "nbr_annotations": anns.len(), "category_token": category,
                       "first_annotation_token": anns[0], "last_annotation_token": anns[anns.len() - 1]}),
            );
        }
    }
    ds
}

/// One scene of n samples, each with a lidar record and an annotation of the same instance.
pub fn long_chain(rng: &mut Rng, n: usize) -> Ds {
    let mut ds = Ds::default();
    let mut tokens = Tokens(Default::default());
    for t in TABLES {
        ds.tables.insert(t, Vec::new());
    }
    let mut list = |n: usize| -> Vec<String> { (0..n).map(|_| tokens.fresh(rng)).collect() };
    let one = list(8);
    let (samples, anns, data) = (list(n), list(n), list(n));
    ds.push("sensor", json!({"token": one[0], "modality": "lidar", "channel": "LIDAR_TOP"}));
    ds.push("calibrated_sensor", json!({"token": one[1], "sensor_token": one[0], "rotation": [1, 0, 0, 0], "camera_intrinsic": [], "translation": [0, 0, 1.5]}));
    ds.push("ego_pose", json!({"token": one[2], "timestamp": 5, "rotation": [1, 0, 0, 0], "translation": [1, 2, 3]}));
    ds.push("category", json!({"token": one[3], "description": "", "name": "vehicle.car"}));
    ds.push("log", json!({"token": one[4], "location": "x", "vehicle": "y", "logfile": "", "date_captured": "2020-01-02"}));
    ds.push("scene", json!({"token": one[5], "name": "long", "description": "", "log_token": one[4], "nbr_samples": n,
                            "first_sample_token": samples[0], "last_sample_token": samples[n - 1]}));
    ds.push("instance", json!({"token": one[6], "nbr_annotations": n, "category_token": one[3],
                               "first_annotation_token": anns[0], "last_annotation_token": anns[n - 1]}));
    let near = |list: &[String], i: usize| -> (String, String) {
        (if i == 0 { String::new() } else { list[i - 1].clone() }, list.get(i + 1).cloned().unwrap_or_default())
    };
    for i in 0..n {
        let stamp = 1_000_000 + i as u64 * 100_000;
        let (prev, next) = near(&samples, i);
        ds.push("sample", json!({"token": samples[i], "timestamp": stamp, "scene_token": one[5], "prev": prev, "next": next}));
        let (prev, next) = near(&anns, i);
        ds.push("sample_annotation", json!({
            "token": anns[i], "num_lidar_pts": i % 300, "num_radar_pts": 0, "size": [2, 4, 1.5], "rotation": [1, 0, 0, 0],
            "translation": [i as f64 * 0.5, 1, 0], "sample_token": samples[i], "instance_token": one[6], "attribute_tokens": [],
            "visibility_token": "", "prev": prev, "next": next}));
        let (prev, next) = near(&data, i);
        ds.push("sample_data", json!({
            "token": data[i], "fileformat": "bin", "is_key_frame": true, "filename": format!("samples/LIDAR_TOP/{:06}.bin", i),
            "timestamp": stamp, "sample_token": samples[i], "ego_pose_token": one[2], "calibrated_sensor_token": one[1],
            "prev": prev, "next": next}));
    }
    ds
}

// ------------------------------------------------------------------------------------- expected

/// An object as loading for evaluation should give it.
#[derive(Clone, Debug)]
pub struct ExpectedBox {
    pub position: V3,
    pub orientation: oracle::Q,
    pub size: V3,
    pub label: Label,
    pub points: usize,
    pub instance: String,
    pub token: String,
    pub name: String,
}

/// Annotations of a sample relative to a pose.
pub fn boxes_of(ds: &Ds, sample: &str, poses: &[&Value]) -> Vec<ExpectedBox> {
    ds.table("sample_annotation")
        .iter()
        .filter(|a| text(a, "sample_token") == sample)
        .map(|a| {
            let mut p = vec3(&a["translation"]);
            let mut q = quat4(&a["rotation"]);
            for pose in poses {
                let inv = oracle::qconj(&quat4(&pose["rotation"]));
                p = oracle::qrot(&inv, &oracle::sub(&p, &vec3(&pose["translation"])));
                q = oracle::qmul(&inv, &q);
            }
            let inst = ds.find("instance", text(a, "instance_token"));
            let name = text(ds.find("category", text(inst, "category_token")), "name").to_string();
            ExpectedBox {
                position: p,
                orientation: q,
                size: vec3(&a["size"]),
                label: label_of(&name),
                points: a["num_lidar_pts"].as_u64().unwrap() as usize,
                instance: text(a, "instance_token").to_string(),
                token: text(a, "token").to_string(),
                name,
            }
        })
        .collect()
}

/// The pose of the lidar record at the time of the sample.
pub fn lidar_pose<'d>(ds: &'d Ds, sample: &Value) -> Option<&'d Value> {
    ds.table("sample_data")
        .iter()
        .find(|d| {
            let cs = ds.find("calibrated_sensor", text(d, "calibrated_sensor_token"));
            let sensor = ds.find("sensor", text(cs, "sensor_token"));
            text(d, "sample_token") == text(sample, "token")
                && text(sensor, "modality") == "lidar"
                && micros(d) == micros(sample)
        })
        .map(|d| ds.find("ego_pose", text(d, "ego_pose_token")))
}

// --------------------------------------------------------------------------------------- faults

/// A change that makes a dataset inconsistent (or a file unusable).
#[derive(Clone, Debug)]
pub enum Fault {
    MissingTable(&'static str),
    /// The bytes of the table are replaced.
    Garbage(&'static str, Vec<u8>),
    /// Only this part of the table, in percent, is left.
    Truncated(&'static str, usize),
    DropField(&'static str, usize, String),
    Retype(&'static str, usize, String, Value),
    /// A token field (or an element of a list of them) that refers to nothing.
    Dangling(&'static str, usize, String, Option<usize>),
    /// A token that is no token.
    BadToken(&'static str, usize, String, String),
    /// A link or count is set to another value.
    Set(&'static str, usize, String, Value),
    /// A record is removed that others refer to.
    Remove(&'static str, usize),
    /// Several fields are changed, so that no single link or count is wrong: (kind, site, changes).
    Several(&'static str, &'static str, Vec<(&'static str, usize, &'static str, Value)>),
    /// A record is added that nothing leads to.
    Stray(&'static str, Value),
}

/// Fields that have to refer to a record, and the table they refer to.
pub const REFERENCES: &[(&str, &str, &str)] = &[
    ("calibrated_sensor", "sensor_token", "sensor"),
    ("instance", "category_token", "category"),
    ("instance", "first_annotation_token", "sample_annotation"),
    ("instance", "last_annotation_token", "sample_annotation"),
    ("sample", "scene_token", "scene"),
    ("sample", "prev", "sample"),
    ("sample", "next", "sample"),
    ("sample_annotation", "sample_token", "sample"),
    ("sample_annotation", "instance_token", "instance"),
    ("sample_annotation", "attribute_tokens", "attribute"),
    ("sample_annotation", "visibility_token", "visibility"),
    ("sample_annotation", "prev", "sample_annotation"),
    ("sample_annotation", "next", "sample_annotation"),
    ("sample_data", "sample_token", "sample"),
    ("sample_data", "ego_pose_token", "ego_pose"),
    ("sample_data", "calibrated_sensor_token", "calibrated_sensor"),
    ("sample_data", "prev", "sample_data"),
    ("sample_data", "next", "sample_data"),
    ("scene", "log_token", "log"),
    ("scene", "first_sample_token", "sample"),
    ("scene", "last_sample_token", "sample"),
];

fn table_name(name: &str) -> &'static str {
    TABLES.iter().find(|t| **t == name).expect("harness: table name")
}

/// Fields that every record must have.
pub fn required(table: &str) -> &'static [&'static str] {
    match table {
        "attribute" | "category" => &["token", "description", "name"],
        "calibrated_sensor" => &["token", "sensor_token", "rotation", "camera_intrinsic", "translation"],
        "ego_pose" => &["token", "timestamp", "rotation", "translation"],
        "instance" => &["token", "nbr_annotations", "category_token", "first_annotation_token", "last_annotation_token"],
        "log" => &["token", "location", "vehicle", "logfile"],
        "map" => &["token", "log_tokens", "filename", "category"],
        "sample" => &["token", "next", "prev", "scene_token", "timestamp"],
        "sample_annotation" => &[
            "token", "num_lidar_pts", "num_radar_pts", "size", "rotation", "translation", "sample_token",
            "instance_token", "attribute_tokens", "visibility_token", "prev", "next",
        ],
        "sample_data" => &[
            "token", "fileformat", "is_key_frame", "filename", "timestamp", "sample_token", "ego_pose_token",
            "calibrated_sensor_token", "prev", "next",
        ],
        "scene" => &["token", "name", "description", "log_token", "nbr_samples", "first_sample_token", "last_sample_token"],
        "sensor" => &["token", "modality", "channel"],
        _ => &["token", "level", "description"],
    }
}

fn bad_tokens() -> Vec<String> {
    let good = "0123456789abcdef0123456789abcdef";
    vec![
        good[..31].to_string(),
        good[..30].to_string(),
        format!("{}0", good),
        format!("{}00", good),
        format!("{}{}", good, good),
        "g123456789abcdef0123456789abcdef".to_string(),
        " 123456789abcdef0123456789abcdef".to_string(),
        "0x23456789abcdef0123456789abcdef".to_string(),
        "é23456789abcdef0123456789abcdef".to_string(),
        "x".to_string(),
    ]
}

/// All single faults of a dataset.
pub fn faults(ds: &Ds, rng: &mut Rng) -> Vec<Fault> {
    let mut out = Vec::new();
    for t in TABLES {
        out.push(Fault::MissingTable(t));
        for bytes in [&b""[..], b"{}", b"null", b"[", b"[{}]", b"[1]", b"[]]", b"\xff\xfe", b"[{\"token\": 3}]", b"\"[]\""] {
            out.push(Fault::Garbage(t, bytes.to_vec()));
        }
        out.push(Fault::Truncated(t, rng.below(100)));
        let n = ds.table(t).len();
        if n == 0 {
            continue;
        }
        for f in required(t) {
            let i = rng.below(n);
            out.push(Fault::DropField(t, i, f.to_string()));
            // no field may be an object, most not null, a number or a text
            let old = &ds.table(t)[i][*f];
            let mut wrong = vec![json!({"a": 1})];
            if !matches!(*f, "prev" | "next" | "visibility_token" | "logfile") {
                wrong.push(Value::Null);
            }
            if old.is_string() {
                wrong.push(json!(7));
                wrong.push(json!([]));
            } else if old.is_number() {
                wrong.push(json!("7"));
                wrong.push(json!([7]));
                if f.starts_with("num") || f.starts_with("nbr") {
                    wrong.push(json!(-1));
                    wrong.push(json!(1.5));
                }
            } else if old.is_boolean() {
                wrong.push(json!("true"));
                wrong.push(json!(1));
            } else if old.is_array() {
                wrong.push(json!("x"));
                wrong.push(json!([{}]));
                if matches!(*f, "rotation" | "translation" | "size") {
                    let mut short = old.as_array().unwrap().clone();
                    short.pop();
                    wrong.push(json!(short));
                    let mut long = old.as_array().unwrap().clone();
                    long.push(json!(0.5));
                    wrong.push(json!(long));
                    let mut odd = old.as_array().unwrap().clone();
                    odd[0] = json!("1");
                    wrong.push(json!(odd));
                }
                if *f == "camera_intrinsic" {
                    wrong.push(json!([[1, 2, 3], [4, 5, 6]]));
                    wrong.push(json!([[1, 2], [3, 4], [5, 6]]));
                    wrong.push(json!([[1, 2, 3]]));
                    wrong.push(json!([[1, 2, 3], [4, 5, 6], [7, 8, 9], [1, 1, 1]]));
                    wrong.push(json!([1, 2, 3, 4, 5, 6, 7, 8, 9]));
                }
            }
            if matches!(*f, "fileformat" | "modality" | "channel" | "level") {
                wrong.push(json!("nonsense"));
                wrong.push(json!(""));
                wrong.push(json!(text(&ds.table(t)[i], f).to_uppercase() + "_"));
            }
            for w in wrong {
                out.push(Fault::Retype(t, i, f.to_string(), w));
            }
        }
        if t != "visibility" {
            let bad = rng.pick(&bad_tokens()).clone();
            out.push(Fault::BadToken(t, rng.below(n), "token".into(), bad));
        }
    }
    for (t, f, _) in REFERENCES {
        let t = table_name(t);
        for i in 0..ds.table(t).len() {
            let v = &ds.table(t)[i][*f];
            if let Some(list) = v.as_array() {
                for k in 0..list.len() {
                    out.push(Fault::Dangling(t, i, f.to_string(), Some(k)));
                }
            } else {
                // also links that were absent
                out.push(Fault::Dangling(t, i, f.to_string(), None));
                if *f != "visibility_token" {
                    let bad = rng.pick(&bad_tokens()).clone();
                    out.push(Fault::BadToken(t, i, f.to_string(), bad));
                }
            }
        }
    }
    // wrong counts, first, last, previous and next links
    for (t, count, first, last, item) in [
        ("scene", "nbr_samples", "first_sample_token", "last_sample_token", "sample"),
        ("instance", "nbr_annotations", "first_annotation_token", "last_annotation_token", "sample_annotation"),
    ] {
        let t = table_name(t);
        let item = table_name(item);
        for (i, v) in ds.table(t).iter().enumerate() {
            let n = v[count].as_u64().unwrap();
            // also ones that are right in fewer bits
            for wrong in [0, n - 1, n + 1, 2 * n + 3, n + (1 << 8), n + (1 << 16), n + (1 << 32), u64::MAX] {
                if wrong != n {
                    out.push(Fault::Set(t, i, count.to_string(), json!(wrong)));
                }
            }
            for other in ds.table(item) {
                for end in [first, last] {
                    if text(other, "token") != text(v, end) {
                        out.push(Fault::Set(t, i, end.to_string(), json!(text(other, "token"))));
                    }
                }
            }
        }
        let n = ds.table(item).len();
        for i in 0..n {
            for link in ["prev", "next"] {
                let old = text(&ds.table(item)[i], link).to_string();
                if !old.is_empty() {
                    out.push(Fault::Set(item, i, link.to_string(), json!("")));
                }
                // to itself (no end), and to any other record
                for j in 0..n {
                    let other = text(&ds.table(item)[j], "token").to_string();
                    if other != old {
                        out.push(Fault::Set(item, i, link.to_string(), json!(other)));
                    }
                }
            }
        }
    }
    // chains that hold records of others, or leave out some of their own
    for (t, count, first, last, item, owner) in [
        ("scene", "nbr_samples", "first_sample_token", "last_sample_token", "sample", "scene_token"),
        ("instance", "nbr_annotations", "first_annotation_token", "last_annotation_token", "sample_annotation", "instance_token"),
    ] {
        let (t, item) = (table_name(t), table_name(item));
        let at = |token: &str| ds.table(item).iter().position(|v| text(v, "token") == token).unwrap();
        let owners = ds.table(t);
        for (i, v) in owners.iter().enumerate() {
            let mut chain = vec![at(text(v, first))];
            while !text(&ds.table(item)[chain[chain.len() - 1]], "next").is_empty() {
                chain.push(at(text(&ds.table(item)[chain[chain.len() - 1]], "next")));
            }
            let token = |k: usize| ds.table(item)[chain[k]]["token"].clone();
            for (j, w) in owners.iter().enumerate() {
                if i != j {
                    let k = rng.below(chain.len());
                    let site = if t == "scene" { "sample of another scene" } else { "annotation of another instance" };
                    out.push(Fault::Several("wrong_owner", site, vec![(item, chain[k], owner, w["token"].clone())]));
                    let whole = (0..chain.len()).map(|k| (item, chain[k], owner, w["token"].clone())).collect();
                    out.push(Fault::Several("wrong_owner", site, whole));
                    let site = if t == "scene" { "chain of two scenes" } else { "chain of two instances" };
                    let shared = [count, first, last].map(|f| (t, j, f, v[f].clone()));
                    out.push(Fault::Several("wrong_owner", site, shared.to_vec()));
                }
            }
            for k in 1..chain.len() {
                // the chain ends early or begins late; the other part may still point to it
                let mut early = vec![(t, i, count, json!(k)), (t, i, last, token(k - 1)), (item, chain[k - 1], "next", json!(""))];
                let mut late = vec![(t, i, count, json!(chain.len() - k)), (t, i, first, token(k)), (item, chain[k], "prev", json!(""))];
                if rng.chance(0.5) {
                    early.push((item, chain[k], "prev", json!("")));
                    late.push((item, chain[k - 1], "next", json!("")));
                }
                out.push(Fault::Several("left_out", if t == "scene" { "end of a scene" } else { "end of an instance" }, early));
                out.push(Fault::Several("left_out", if t == "scene" { "begin of a scene" } else { "begin of an instance" }, late));
            }
            let mut stray = ds.table(item)[chain[0]].clone();
            stray["prev"] = json!("");
            stray["next"] = json!("");
            out.push(Fault::Stray(item, stray.clone()));
            stray["next"] = token(0);
            out.push(Fault::Stray(item, stray.clone()));
            stray["next"] = json!("");
            stray["prev"] = token(chain.len() - 1);
            out.push(Fault::Stray(item, stray));
        }
    }
    // records that others refer to
    for t in TABLES {
        for (i, v) in ds.table(t).iter().enumerate() {
            if referred(ds, t, text(v, "token")) {
                out.push(Fault::Remove(t, i));
            }
        }
    }
    out
}

fn referred(ds: &Ds, table: &str, token: &str) -> bool {
    REFERENCES.iter().filter(|(_, _, to)| *to == table).any(|(t, f, _)| {
        ds.table(t).iter().any(|v| match &v[*f] {
            Value::Array(list) => list.iter().any(|e| e == token),
            e => e == token,
        })
    })
}

/// A token that looks like the one given, or belongs to another table, but to no record of this one.
fn almost(rng: &mut Rng, ds: &Ds, token: &str, table: &str) -> Option<String> {
    let other = *rng.pick(&TABLES);
    if ds.table(table).is_empty() || ds.table(other).is_empty() {
        return None;
    }
    let token = if token.is_empty() { text(rng.pick(ds.table(table)), "token") } else { token };
    let near = if table == "visibility" {
        match rng.below(8) {
            0 => format!("0{}", token),
            1 => format!(" {}", token),
            2 => format!("{} ", token),
            3 => format!("{}.0", token),
            4 => format!("+{}", token),
            5 => token.trim_start_matches('0').to_string(),
            6 => token.chars().rev().collect(),
            _ => format!("{}{}", token, token),
        }
    } else if rng.chance(0.4) {
        text(rng.pick(ds.table(other)), "token").to_string()
    } else {
        let mut digits: Vec<char> = token.chars().collect();
        let at = match rng.below(3) {
            0 => 0,
            1 => digits.len() - 1,
            _ => rng.below(digits.len()),
        };
        match rng.below(4) {
            0 => digits.rotate_left(2),
            1 => digits.reverse(),
            _ => digits[at] = if digits[at] == '0' { '1' } else { '0' },
        }
        digits.into_iter().collect()
    };
    let known = |t: &str| ds.table(table).iter().any(|v| text(v, "token").eq_ignore_ascii_case(t));
    let plain = table == "visibility" || (near.len() == 32 && near.chars().all(|c| c.is_ascii_hexdigit()));
    (plain && !near.is_empty() && !known(&near)).then_some(near)
}

impl Fault {
    /// Writes the dataset with this fault.
    pub fn write(&self, ds: &Ds, root: &Path, rng: &mut Rng) {
        let mut bad = ds.clone();
        let nowhere = loop {
            let t = gen::uuid(rng);
            if !TABLES.iter().any(|n| bad.table(n).iter().any(|v| text(v, "token") == t)) {
                break t;
            }
        };
        let nowhere = match self {
            Fault::Dangling(t, i, f, k) if rng.chance(0.6) => {
                let (_, _, to) = REFERENCES.iter().find(|(from, field, _)| table_name(from) == *t && *field == f.as_str()).expect("harness: reference");
                let value = &ds.table(t)[*i][f.as_str()];
                let value = k.map_or(value, |k| &value[k]).as_str().unwrap_or("");
                almost(rng, ds, value, to).unwrap_or(nowhere)
            }
            _ => nowhere,
        };
        fn rec<'d>(bad: &'d mut Ds, t: &&'static str, i: &usize) -> &'d mut Value {
            &mut bad.tables.get_mut(t).unwrap()[*i]
        }
        match self {
            Fault::DropField(t, i, f) => {
                rec(&mut bad, t, i).as_object_mut().unwrap().remove(f);
            }
            Fault::Retype(t, i, f, v) | Fault::Set(t, i, f, v) => rec(&mut bad, t, i)[f.as_str()] = v.clone(),
            Fault::Dangling(t, i, f, None) => rec(&mut bad, t, i)[f.as_str()] = json!(nowhere),
            Fault::Dangling(t, i, f, Some(k)) => rec(&mut bad, t, i)[f.as_str()][*k] = json!(nowhere),
            Fault::BadToken(t, i, f, text) => rec(&mut bad, t, i)[f.as_str()] = json!(text),
            Fault::Remove(t, i) => {
                bad.tables.get_mut(t).unwrap().remove(*i);
            }
            Fault::Several(_, _, changes) => {
                for (t, i, f, v) in changes {
                    rec(&mut bad, t, i)[*f] = v.clone();
                }
            }
            Fault::Stray(t, v) => {
                let mut v = v.clone();
                v["token"] = json!(nowhere);
                bad.push(t, v);
            }
            _ => {}
        }
        bad.write(root, rng, true);
        let path = |t: &str| -> PathBuf { root.join(VERSION).join(format!("{}.json", t)) };
        match self {
            Fault::MissingTable(t) => std::fs::remove_file(path(t)).expect("harness: remove"),
            Fault::Garbage(t, bytes) => std::fs::write(path(t), bytes).expect("harness: write"),
            Fault::Truncated(t, percent) => {
                let bytes = std::fs::read(path(t)).expect("harness: read");
                // without its last byte a table is no longer complete
                let keep = (bytes.len() * percent / 100).min(bytes.len() - 1);
                std::fs::write(path(t), &bytes[..keep]).expect("harness: write");
            }
            _ => {}
        }
    }

    pub fn kind(&self) -> &'static str {
        match self {
            Fault::MissingTable(_) => "missing_table",
            Fault::Garbage(..) => "garbage_table",
            Fault::Truncated(..) => "truncated_table",
            Fault::DropField(..) => "dropped_field",
            Fault::Retype(..) => "wrong_type",
            Fault::Dangling(..) => "dangling_token",
            Fault::BadToken(..) => "bad_token",
            Fault::Set(_, _, f, _) if f.starts_with("nbr") => "wrong_count",
            Fault::Set(..) => "wrong_link",
            Fault::Remove(..) => "removed_record",
            Fault::Several(kind, ..) => kind,
            Fault::Stray(..) => "left_out",
        }
    }

    pub fn site(&self) -> String {
        match self {
            Fault::MissingTable(t) | Fault::Garbage(t, _) | Fault::Truncated(t, _) | Fault::Remove(t, _) => t.to_string(),
            Fault::DropField(t, _, f)
            | Fault::Retype(t, _, f, _)
            | Fault::Dangling(t, _, f, _)
            | Fault::BadToken(t, _, f, _)
            | Fault::Set(t, _, f, _) => format!("{}.{}", t, f),
            Fault::Several(_, site, _) => site.to_string(),
            Fault::Stray(t, _) => format!("stray {}", t),
        }
    }
}

//! Datasets: lookup, loading, integrity, frames, records, sensor data, hostile files. P16 to P22.

use crate::ds::{self, boxes_of, lidar_pose, micros, quat4, text, vec3, Ds, DsParams, Fault, TABLES, VERSION};
use crate::ensure;
use crate::gen;
use crate::obs::{Env, Obs, Verdict};
use crate::oracle::{dist3, qsame};
use crate::rng::Rng;
use chrono::{Duration, NaiveDateTime, Timelike};
use perception_eval::dataset::nuscenes::r#box::NuScenesBox;
use perception_eval::dataset::nuscenes::schema::{self, LongToken, ShortToken};
use perception_eval::dataset::nuscenes::{LoadedSampleData, NuScenes};
use perception_eval::dataset::{get_current_frame, load_dataset, FrameGroundTruth};
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::frame_id::FrameID;
use perception_eval::manager::PerceptionEvaluationManager;
use perception_eval::object::object3d::DynamicObject;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::path::Path;

// ------------------------------------------------------------------------------------------ P16

pub fn nanos(t: &NaiveDateTime) -> i128 {
    t.timestamp() as i128 * 1_000_000_000 + t.nanosecond() as i128
}

fn same_frame(a: &FrameGroundTruth, b: &FrameGroundTruth) -> bool {
    a.timestamp == b.timestamp
        && a.objects.len() == b.objects.len()
        && a.objects.iter().zip(&b.objects).all(|(x, y)| gen::same(x, y))
}

pub fn p16(rng: &mut Rng, _env: &Env, o: &mut Obs) -> Verdict {
    const LIMIT: i128 = 75_000_000;
    let n = match rng.below(6) {
        0 => rng.below(2),
        1 => 40 + rng.below(100),
        _ => 1 + rng.below(12),
    };
    // a long recording
    let long = rng.chance(0.003);
    let most = if rng.chance(0.1) { 30_000 } else { 3_000 };
    let n = if long { 200 + rng.below(most) } else { n };
    let base = gen::time_us(match rng.below(4) {
        0 => rng.int(-3_000_000_000_000_000, 0),
        1 => rng.int(0, 1000),
        _ => rng.int(1_400_000_000_000_000, 1_900_000_000_000_000),
    });
    // query distances around the limit, to the nanosecond
    let delta = |rng: &mut Rng| -> i64 {
        let sign = if rng.chance(0.5) { 1 } else { -1 };
        sign * match rng.below(8) {
            0 => 75_000_000,
            1 => 75_000_000 + rng.int(-2, 2),
            2 => 75_000_000 + rng.int(-999_999, 999_999),
            3 => 74_999_999,
            4 => 0,
            5 => rng.int(0, 10_000_000_000),
            6 => rng.int(0, 20) * 25_000_000,
            _ => rng.int(0, 150_000_000),
        }
    };
    let mut stamps: Vec<NaiveDateTime> = Vec::new();
    for i in 0..n {
        let t = match rng.below(4) {
            0 if !stamps.is_empty() => *rng.pick(&stamps),
            1 => base + Duration::milliseconds(100 * i as i64),
            2 => base + Duration::milliseconds(rng.int(-10_000, 10_000) * 25),
            _ => base + Duration::nanoseconds(rng.int(-5_000_000_000, 5_000_000_000)),
        };
        stamps.push(t);
    }
    if rng.chance(0.05) && n > 0 {
        // far away
        let i = rng.below(n);
        stamps[i] = base + Duration::days(rng.int(-80_000, 80_000));
    }
    let centuries = rng.chance(0.05);
    if centuries {
        // centuries and ages apart
        for t in stamps.iter_mut() {
            if rng.chance(0.5) {
                *t = base + Duration::days(rng.int(-600_000, 2_900_000));
            }
        }
        o.hit("centuries_apart");
    }
    if long {
        o.hit("long_recording");
        let step = *rng.pick(&[0, 1, 1_000_000, 50_000_000, 100_000_000]);
        let mut t = base;
        for s in stamps.iter_mut() {
            // several frames may have the same time
            if rng.chance(0.6) {
                t += Duration::nanoseconds(step + rng.int(0, 3));
            }
            *s = t;
        }
        if rng.chance(0.3) {
            let (i, j) = (rng.below(n), rng.below(n));
            stamps.swap(i, j);
        }
    }
    if rng.chance(0.4) {
        stamps.sort();
        if rng.chance(if long { 0.1 } else { 0.5 }) {
            stamps.reverse();
        }
    }
    let frames: Vec<FrameGroundTruth> = stamps
        .iter()
        .map(|t| {
            let objects = (0..rng.below(if long { 2 } else { 3 }))
                .map(|_| {
                    let label = rng.pick(&gen::LABELS).clone();
                    let mut x = gen::object(rng, label);
                    x.timestamp = *t;
                    x
                })
                .collect();
            FrameGroundTruth { timestamp: *t, objects }
        })
        .collect();

    let config = gen::Settings::wide(rng, 3).config()?;
    let manager = PerceptionEvaluationManager { config: &config, frame_ground_truths: frames.clone(), frame_results: Vec::new() };
    for _ in 0..8 {
        let around = if stamps.is_empty() || rng.chance(0.1) { base } else { *rng.pick(&stamps) };
        let query = if rng.chance(0.15) && stamps.len() > 1 {
            // right between two frames
            let (a, b) = (rng.pick(&stamps), rng.pick(&stamps));
            let d = nanos(b) - nanos(a);
            if d.abs() < 1_000_000_000_000 {
                *a + Duration::nanoseconds((d / 2) as i64)
            } else {
                *a
            }
        } else if centuries && rng.chance(0.3) {
            *rng.pick(&[base, base - Duration::days(150_000), base + Duration::days(150_000), base + Duration::days(2_000_000)])
        } else {
            around + Duration::nanoseconds(delta(rng))
        };
        let diffs: Vec<i128> = frames.iter().map(|f| (nanos(&f.timestamp) - nanos(&query)).abs()).collect();
        let best = diffs.iter().min().copied();
        let want = best.filter(|b| *b < LIMIT).map(|b| diffs.iter().position(|d| *d == b).unwrap());
        let got = if rng.chance(0.5) { get_current_frame(&frames, &query) } else { manager.get_frame_ground_truth(&query) };
        match (&want, &got) {
            (None, None) => o.hit("none_confirmed"),
            (Some(i), Some(f)) => {
                ensure!(
                    f.timestamp == frames[*i].timestamp,
                    "lookup of {} gives the frame at {} ({} ns away), the nearest is at {} ({} ns away); frames at {:?}",
                    query, f.timestamp, (nanos(&f.timestamp) - nanos(&query)).abs(), frames[*i].timestamp, best.unwrap(), stamps
                );
                ensure!(
                    same_frame(f, &frames[*i]),
                    "lookup of {} does not return frame {} unchanged, or not the first of the nearest; frames at {:?}", query, i, stamps
                );
                o.hit("frame_confirmed");
                if diffs.iter().filter(|d| **d == best.unwrap()).count() > 1 {
                    o.hit("tie_confirmed");
                }
            }
            (None, Some(f)) => {
                return Err(format!(
                    "lookup of {} gives the frame at {}, {} ns away; frames at {:?}",
                    query, f.timestamp, (nanos(&f.timestamp) - nanos(&query)).abs(), stamps
                ))
            }
            (Some(i), None) => {
                return Err(format!(
                    "lookup of {} gives nothing, but frame {} at {} is {} ns away; frames at {:?}",
                    query, i, frames[*i].timestamp, best.unwrap(), stamps
                ))
            }
        }
        if let Some(b) = best {
            if (b - LIMIT).abs() < 1_000_000 {
                o.hit("within_1ms_of_limit");
                o.nontrivial = true;
            }
            if b == LIMIT {
                o.hit("exactly_at_limit");
            }
        } else {
            o.hit("no_frames");
        }
        o.shape((n.min(8), want.is_some(), best.map(|b| b / 1_000_000)));
    }
    for (f, g) in frames.iter().zip(&manager.frame_ground_truths) {
        ensure!(same_frame(f, g), "lookup changes the stored frames");
    }
    o.sample = Some(json!({"frames": stamps.iter().map(|t| t.to_string()).collect::<Vec<_>>()}));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P17

/// Values agree: numbers up to the rounding of the last digit, everything else exactly.
fn agree(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            if let (Some(x), Some(y)) = (x.as_i64(), y.as_i64()) {
                return x == y;
            }
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            if x.fract() == 0.0 && y.fract() == 0.0 && x.abs() < 1.7e15 && y.abs() < 1.7e15 {
                return x == y;
            }
            (x - y).abs() <= 1e-15 * x.abs().max(y.abs()) + 1e-300
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| agree(p, q)),
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| agree(v, w)))
        }
        _ => a == b,
    }
}

fn stamp(t: &NaiveDateTime) -> i64 {
    t.timestamp_micros()
}

fn opt<T: ToString>(t: &Option<T>) -> String {
    t.as_ref().map_or(String::new(), |t| t.to_string())
}

fn texts<T: ToString>(list: &[T]) -> Vec<String> {
    list.iter().map(|t| t.to_string()).collect()
}

fn canonical_enum(field: &str, name: &str) -> String {
    match (field, name) {
        ("fileformat", "bin" | "pcd") => "Bin",
        ("fileformat", "jpeg" | "jpg") => "Jpeg",
        ("fileformat", "png") => "Png",
        ("level", "v0-40" | "none") => "None",
        ("level", "v40-60" | "partial") => "Partial",
        ("level", "v60-80" | "most") => "Most",
        ("level", "v80-100" | "full") => "Full",
        ("modality", "camera") => "Camera",
        ("modality", "lidar") => "Lidar",
        ("modality", "radar") => "Radar",
        ("channel", "LIDAR_TOP" | "LIDAR_CONCAT") => "LidarTop",
        ("channel", other) => return other.split('_').map(|w| w[..1].to_string() + &w[1..].to_lowercase()).collect(),
        (_, other) => other,
    }
    .to_string()
}

/// What a record of the file should look like once it is loaded.
fn expected_record(ds: &Ds, table: &str, v: &Value) -> Value {
    let mut out = json!({});
    let mut fields: Vec<&str> = ds::required(table).to_vec();
    if table == "log" {
        fields.push("date_captured");
    }
    for f in fields {
        let x = &v[f];
        out[f] = match f {
            "timestamp" => json!(micros(v)),
            "fileformat" | "level" | "modality" | "channel" => json!(canonical_enum(f, x.as_str().unwrap())),
            _ => x.clone(),
        };
    }
    let chain = |item: &str, first: &str| -> Vec<String> {
        let mut list = Vec::new();
        let mut at = text(v, first).to_string();
        while !at.is_empty() {
            list.push(at.clone());
            at = text(ds.find(item, &at), "next").to_string();
        }
        list
    };
    match table {
        "instance" => json!({"token": v["token"], "category_token": v["category_token"],
                             "annotation_tokens": chain("sample_annotation", "first_annotation_token")}),
        "scene" => json!({"token": v["token"], "name": v["name"], "description": v["description"], "log_token": v["log_token"],
                          "sample_tokens": chain("sample", "first_sample_token")}),
        _ => out,
    }
}

pub type Records = BTreeMap<&'static str, Vec<Value>>;

/// Everything the iterators give, from the fields of the records.
pub fn observed_records(n: &NuScenes) -> Records {
    let mut r: Records = BTreeMap::new();
    r.insert(
        "attribute",
        n.attribute_iter().map(|a| json!({"token": a.token.to_string(), "description": a.description, "name": a.name})).collect(),
    );
    r.insert(
        "category",
        n.category_iter().map(|a| json!({"token": a.token.to_string(), "description": a.description, "name": a.name})).collect(),
    );
    r.insert(
        "calibrated_sensor",
        n.calibrated_sensor_iter()
            .map(|c| {
                let intrinsic = match c.camera_intrinsic {
                    Some(m) => json!(m),
                    None => json!([]),
                };
                json!({"token": c.token.to_string(), "sensor_token": c.sensor_token.to_string(), "rotation": c.rotation,
                       "translation": c.translation, "camera_intrinsic": intrinsic})
            })
            .collect(),
    );
    r.insert(
        "ego_pose",
        n.ego_pose_iter()
            .map(|e| json!({"token": e.token.to_string(), "timestamp": stamp(&e.timestamp), "rotation": e.rotation, "translation": e.translation}))
            .collect(),
    );
    #[cfg(feature = "iterators")]
    r.insert(
        "instance",
        n.instance_iter()
            .map(|i| json!({"token": i.token.to_string(), "category_token": i.category_token.to_string(), "annotation_tokens": texts(&i.annotation_tokens)}))
            .collect(),
    );
    r.insert(
        "log",
        n.log_iter()
            .map(|l| {
                json!({"token": l.token.to_string(), "date_captured": l.date_captured.map(|d| d.to_string()), "location": l.location,
                       "vehicle": l.vehicle, "logfile": l.logfile.as_ref().map_or("", |p| p.to_str().unwrap())})
            })
            .collect(),
    );
    #[cfg(feature = "iterators")]
    r.insert(
        "map",
        n.map_iter()
            .map(|m| json!({"token": m.token.to_string(), "log_tokens": texts(&m.log_tokens), "filename": m.filename, "category": m.category}))
            .collect(),
    );
    r.insert(
        "sample",
        n.sample_iter()
            .map(|s| {
                json!({"token": s.token.to_string(), "next": opt(&s.next), "prev": opt(&s.prev), "scene_token": s.scene_token.to_string(),
                       "timestamp": stamp(&s.timestamp)})
            })
            .collect(),
    );
    r.insert(
        "sample_annotation",
        n.sample_annotation_iter()
            .map(|a| {
                json!({"token": a.token.to_string(), "num_lidar_pts": a.num_lidar_pts, "num_radar_pts": a.num_radar_pts, "size": a.size,
                       "rotation": a.rotation, "translation": a.translation, "sample_token": a.sample_token.to_string(),
                       "instance_token": a.instance_token.to_string(), "attribute_tokens": texts(&a.attribute_tokens),
                       "visibility_token": opt(&a.visibility_token), "prev": opt(&a.prev), "next": opt(&a.next)})
            })
            .collect(),
    );
    r.insert(
        "sample_data",
        n.sample_data_iter()
            .map(|d| {
                json!({"token": d.token.to_string(), "fileformat": format!("{:?}", d.fileformat), "is_key_frame": d.is_key_frame,
                       "filename": d.filename, "timestamp": stamp(&d.timestamp), "sample_token": d.sample_token.to_string(),
                       "ego_pose_token": d.ego_pose_token.to_string(), "calibrated_sensor_token": d.calibrated_sensor_token.to_string(),
                       "prev": opt(&d.prev), "next": opt(&d.next)})
            })
            .collect(),
    );
    r.insert(
        "scene",
        n.scene_iter()
            .map(|s| {
                json!({"token": s.token.to_string(), "name": s.name, "description": s.description, "log_token": s.log_token.to_string(),
                       "sample_tokens": texts(&s.sample_tokens)})
            })
            .collect(),
    );
    r.insert(
        "sensor",
        n.sensor_iter()
            .map(|s| json!({"token": s.token.to_string(), "modality": format!("{:?}", s.modality), "channel": format!("{:?}", s.channel)}))
            .collect(),
    );
    #[cfg(feature = "iterators")]
    r.insert(
        "visibility",
        n.visibility_iter()
            .map(|v| json!({"token": v.token, "level": format!("{:?}", v.level), "description": v.description}))
            .collect(),
    );
    r
}

fn tokens_of(list: &[Value]) -> Vec<String> {
    list.iter().map(|v| text(v, "token").to_string()).collect()
}

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

pub fn load(dir: &Path, what: &str) -> Result<NuScenes, String> {
    NuScenes::load(VERSION, dir).map_err(|e| format!("loading a consistent dataset fails ({}): {}", what, e))
}

/// Follows every link of every record.
fn follow_links(n: &NuScenes, ds: &Ds, o: &mut Obs) -> Verdict {
    let link = |o: &mut Obs, what: &str, got: String, want: &str| -> Verdict {
        o.hit("link_followed");
        ensure!(got == want, "{} leads to {:?}, not {:?}", what, got, want);
        Ok(())
    };
    for c in n.calibrated_sensor_iter() {
        let v = ds.find("calibrated_sensor", &c.token.to_string());
        let s = c.sensor();
        link(o, "calibrated_sensor.sensor", s.token.to_string(), text(v, "sensor_token"))?;
        let w = ds.find("sensor", text(v, "sensor_token"));
        link(o, "modality of calibrated_sensor.sensor", format!("{:?}", s.modality), &canonical_enum("modality", text(w, "modality")))?;
    }
    #[cfg(feature = "iterators")]
    for i in n.instance_iter() {
        let v = ds.find("instance", &i.token.to_string());
        let c = i.category();
        link(o, "instance.category", c.token.to_string(), text(v, "category_token"))?;
        link(o, "name of instance.category", c.name.clone(), text(ds.find("category", text(v, "category_token")), "name"))?;
        let got: Vec<String> = i.sample_annotation_iter().map(|a| a.token.to_string()).collect();
        ensure!(
            json!(got) == expected_record(ds, "instance", v)["annotation_tokens"],
            "annotations of instance {} are {:?}, not {}", i.token, got, expected_record(ds, "instance", v)["annotation_tokens"]
        );
        o.add("link_followed", got.len() as u64);
        for a in i.sample_annotation_iter() {
            link(o, "instance.annotation.instance", a.instance().token.to_string(), text(v, "token"))?;
        }
    }
    #[cfg(feature = "iterators")]
    for m in n.map_iter() {
        let v = ds.find("map", &m.token.to_string());
        let want: Vec<&str> = v["log_tokens"]
            .as_array()
            .unwrap()
            .iter()
            .map(|t| t.as_str().unwrap())
            .filter(|t| ds.table("log").iter().any(|l| text(l, "token") == *t))
            .collect();
        let got: Vec<String> = m.log_iter().map(|l| l.token.to_string()).collect();
        ensure!(got == want, "logs of map {} are {:?}, not {:?}", m.token, got, want);
        o.add("link_followed", got.len() as u64);
    }
    for s in n.sample_iter() {
        let id = s.token.to_string();
        let v = ds.find("sample", &id);
        link(o, "sample.scene", s.scene().token.to_string(), text(v, "scene_token"))?;
        link(o, "sample.prev", s.prev().map_or(String::new(), |x| x.token.to_string()), text(v, "prev"))?;
        link(o, "sample.next", s.next().map_or(String::new(), |x| x.token.to_string()), text(v, "next"))?;
        for (table, got, raw) in [
            ("sample_annotation", s.sample_annotation_iter().map(|a| a.token.to_string()).collect::<Vec<_>>(), texts(&s.annotation_tokens)),
            ("sample_data", s.sample_data_iter().map(|d| d.token.to_string()).collect::<Vec<_>>(), texts(&s.sample_data_tokens)),
        ] {
            let want: Vec<String> = ds.table(table).iter().filter(|a| text(a, "sample_token") == id).map(|a| text(a, "token").to_string()).collect();
            ensure!(
                sorted(got.clone()) == sorted(want.clone()) && got == raw,
                "{} records of sample {} are {:?} ({:?}), not {:?}", table, id, got, raw, want
            );
            o.add("link_followed", got.len() as u64);
        }
    }
    for a in n.sample_annotation_iter() {
        let v = ds.find("sample_annotation", &a.token.to_string());
        link(o, "sample_annotation.sample", a.sample().token.to_string(), text(v, "sample_token"))?;
        link(o, "sample_annotation.instance", a.instance().token.to_string(), text(v, "instance_token"))?;
        link(o, "sample_annotation.prev", a.prev().map_or(String::new(), |x| x.token.to_string()), text(v, "prev"))?;
        link(o, "sample_annotation.next", a.next().map_or(String::new(), |x| x.token.to_string()), text(v, "next"))?;
        let got: Vec<String> = a.attribute_iter().map(|x| x.token.to_string()).collect();
        ensure!(json!(got) == v["attribute_tokens"], "attributes of {} are {:?}, not {}", a.token, got, v["attribute_tokens"]);
    }
    for d in n.sample_data_iter() {
        let v = ds.find("sample_data", &d.token.to_string());
        link(o, "sample_data.sample", d.sample().token.to_string(), text(v, "sample_token"))?;
        link(o, "sample_data.ego_pose", d.ego_pose().token.to_string(), text(v, "ego_pose_token"))?;
        link(o, "sample_data.calibrated_sensor", d.calibrated_sensor().token.to_string(), text(v, "calibrated_sensor_token"))?;
        link(o, "sample_data.prev", d.prev().map_or(String::new(), |x| x.token.to_string()), text(v, "prev"))?;
        link(o, "sample_data.next", d.next().map_or(String::new(), |x| x.token.to_string()), text(v, "next"))?;
    }
    for s in n.scene_iter() {
        let v = ds.find("scene", &s.token.to_string());
        link(o, "scene.log", s.log().token.to_string(), text(v, "log_token"))?;
        let want = &expected_record(ds, "scene", v)["sample_tokens"];
        let got: Vec<String> = s.sample_iter().map(|x| x.token.to_string()).collect();
        ensure!(json!(got) == *want, "samples of scene {} are {:?}, not {}", s.token, got, want);
        o.add("link_followed", got.len() as u64);
    }
    Ok(())
}

#[cfg(feature = "iterators")]
fn annotations_of_instances(n: &NuScenes) -> BTreeMap<String, Vec<String>> {
    n.instance_iter()
        .map(|i| (i.token.to_string(), i.sample_annotation_iter().map(|a| a.token.to_string()).collect()))
        .collect()
}

#[cfg(not(feature = "iterators"))]
fn annotations_of_instances(_: &NuScenes) -> BTreeMap<String, Vec<String>> {
    BTreeMap::new()
}

/// The enumerations whose order is specified.
pub fn ordered(n: &NuScenes) -> Value {
    json!({
        "sample": n.sample_iter().map(|s| s.token.to_string()).collect::<Vec<_>>(),
        "sample_data": n.sample_data_iter().map(|s| s.token.to_string()).collect::<Vec<_>>(),
        "ego_pose": n.ego_pose_iter().map(|s| s.token.to_string()).collect::<Vec<_>>(),
        "scene": n.scene_iter().map(|s| s.token.to_string()).collect::<Vec<_>>(),
        "samples": n.scene_iter().map(|s| s.sample_iter().map(|x| x.token.to_string()).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "of_samples": n.sample_iter().map(|s| json!([
            s.sample_annotation_iter().map(|a| a.token.to_string()).collect::<Vec<_>>(),
            s.sample_data_iter().map(|a| a.token.to_string()).collect::<Vec<_>>()])).collect::<Vec<_>>(),
        "of_instances": annotations_of_instances(n),
    })
}

pub fn copy_files(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).expect("harness: directory");
    for entry in std::fs::read_dir(from).expect("harness: read_dir") {
        let entry = entry.expect("harness: entry");
        std::fs::copy(entry.path(), to.join(entry.file_name())).expect("harness: copy");
    }
}

pub fn p17(rng: &mut Rng, env: &Env, o: &mut Obs) -> Verdict {
    let params = if rng.chance(0.03) { DsParams::rich(rng) } else { DsParams::draw(rng, env.thorough) };
    let mut ds = ds::consistent(rng, &params);
    if rng.chance(0.4) {
        ds::unusual_values(rng, &mut ds);
        o.hit("unusual_values");
    }
    let dir = env.dir("ds");
    ds.write(&dir, rng, true);
    let n = load(&dir, "shuffled")?;
    ensure!(n.version() == VERSION && n.dir() == dir, "version and directory are {:?} and {:?}", n.version(), n.dir());

    let got = observed_records(&n);
    for t in TABLES {
        let mut seen: HashMap<String, usize> = HashMap::new();
        for r in &got[t] {
            *seen.entry(text(r, "token").to_string()).or_insert(0) += 1;
            let id = text(r, "token");
            ensure!(
                ds.table(t).iter().any(|v| text(v, "token") == id),
                "{} enumerates {} that is not in the file", t, id
            );
            let want = expected_record(&ds, t, ds.find(t, id));
            ensure!(agree(r, &want), "{} record is {} but should be {}", t, r, want);
            o.hit("record_compared");
        }
        ensure!(
            seen.values().all(|c| *c == 1) && seen.len() == ds.table(t).len(),
            "{} has {} records, {} are enumerated: {:?}", t, ds.table(t).len(), got[t].len(), seen
        );
    }
    for t in ["sample", "sample_data", "ego_pose"] {
        let times: Vec<i64> = got[t].iter().map(|v| v["timestamp"].as_i64().unwrap()).collect();
        ensure!(times.windows(2).all(|w| w[0] <= w[1]), "{} is not enumerated by time: {:?}", t, times);
        if times.windows(2).any(|w| w[0] == w[1]) {
            o.hit("equal_times");
        }
    }
    let scene_time = |v: &Value| {
        v["sample_tokens"].as_array().unwrap().iter().map(|t| micros(ds.find("sample", t.as_str().unwrap()))).min().unwrap()
    };
    let times: Vec<i64> = got["scene"].iter().map(scene_time).collect();
    ensure!(times.windows(2).all(|w| w[0] <= w[1]), "scenes are not enumerated by time: {:?}", times);
    follow_links(&n, &ds, o)?;

    // again, from the same files and from the records in another order
    let first = ordered(&n);
    ensure!(ordered(&load(&dir, "again")?) == first, "loading the same files again gives another enumeration");
    let other = env.dir("ds2");
    ds.write(&other, rng, true);
    let second = ordered(&load(&other, "in another order")?);
    ensure!(second == first, "the enumeration depends on the order of the records: {} and {}", first, second);
    ensure!(ordered(&n.clone()) == first, "a copy of the dataset gives another enumeration");
    o.add("reload_compared", 3);

    // under another version, next to tables of the usual one
    if rng.chance(0.3) {
        let version = *rng.pick(&["v1.0-mini", "v1.0-test", "1", "annotation 2", "版本", "v1.0-TRAINVAL"]);
        let both = env.dir("ds3");
        let params = DsParams::small(rng);
        ds::consistent(rng, &params).write(&both, rng, true);
        copy_files(&dir.join(VERSION), &both.join(version));
        let n = NuScenes::load(version, &both).map_err(|e| format!("loading version {:?} of a consistent dataset fails: {}", version, e))?;
        ensure!(n.version() == version && n.dir() == both, "version and directory of {:?} in {:?} are {:?} and {:?}", version, both, n.version(), n.dir());
        let third = ordered(&n);
        ensure!(third == first, "version {:?} gives another enumeration: {} and {}", version, first, third);
        o.hit("other_version_compared");
    }

    o.nontrivial = ds.table("sample").len() > 1 && !ds.table("sample_annotation").is_empty();
    o.shape(TABLES.map(|t| ds.table(t).len()));
    o.sample = Some(json!({"records": TABLES.map(|t| (t, ds.table(t).len())).to_vec(), "enumerated": tokens_of(&got["sample"])}));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P18

pub fn p18(rng: &mut Rng, env: &Env, o: &mut Obs) -> Verdict {
    let params = if rng.chance(0.8) { DsParams::small(rng) } else { DsParams::draw(rng, false) };
    // now and then chains of many records, with faults far behind
    let long = rng.chance(0.02);
    let ds = if long {
        let n = if rng.chance(0.3) { 250 + rng.below(400) } else { 60 + rng.below(90) };
        ds::long_chain(rng, n)
    } else {
        let mut ds = ds::consistent(rng, &params);
        if rng.chance(0.2) {
            ds::unusual_values(rng, &mut ds);
            o.hit("unusual_values");
        }
        ds
    };
    let dir = env.dir("ok");
    ds.write(&dir, rng, true);
    load(&dir, "unmodified")?;
    o.hit("consistent_accepted");
    if ds.unknown_logs {
        o.hit("accepted_with_unknown_logs");
    }
    let bare = |t: &str| {
        ds.table("sample").iter().any(|s| ds.table(t).iter().all(|a| text(a, "sample_token") != text(s, "token")))
    };
    if bare("sample_annotation") {
        o.hit("accepted_with_sample_without_annotation");
    }
    if bare("sample_data") {
        o.hit("accepted_with_sample_without_data");
    }

    let mut faults = ds::faults(&ds, rng);
    if long {
        faults.retain(|f| matches!(f.kind(), "wrong_link" | "left_out" | "dangling_token" | "wrong_owner" | "removed_record"));
    }
    rng.shuffle(&mut faults);
    // every kind of fault at every table field gets its turn
    let mut turn: HashMap<(&'static str, String), usize> = HashMap::new();
    let mut keyed: Vec<(usize, Fault)> = faults
        .into_iter()
        .map(|f| {
            let n = turn.entry((f.kind(), f.site())).or_insert(0);
            *n += 1;
            (*n, f)
        })
        .collect();
    let limit = if env.thorough { 400 } else { 30 };
    if long {
        keyed.truncate(limit);
        o.add("faults_in_long_chains", keyed.len() as u64);
    }
    if keyed.len() > limit {
        keyed.sort_by_key(|(n, _)| *n);
        let sites = keyed.iter().filter(|(n, _)| *n == 1).count();
        let mut head: Vec<(usize, Fault)> = keyed.drain(..sites.min(keyed.len())).collect();
        rng.shuffle(&mut head);
        rng.shuffle(&mut keyed);
        head.truncate(limit * 2 / 3);
        head.extend(keyed);
        keyed = head;
        keyed.truncate(limit);
    }
    for (_, fault) in keyed {
        let dir = env.dir("bad");
        fault.write(&ds, &dir, rng);
        match NuScenes::load(VERSION, &dir) {
            Err(e) => {
                let _ = (e.to_string(), format!("{:?}", e));
            }
            Ok(_) => {
                let tables = if long { format!("chains of {}", ds.table("sample").len()) } else { format!("{:?}", ds.tables) };
                return Err(format!("a dataset with the fault {:?} loads; its tables: {}", fault, tables));
            }
        }
        o.hit(match fault.kind() {
            "missing_table" => "rejected_missing_table",
            "garbage_table" => "rejected_garbage_table",
            "truncated_table" => "rejected_truncated_table",
            "dropped_field" => "rejected_dropped_field",
            "wrong_type" => "rejected_wrong_type",
            "dangling_token" => "rejected_dangling_token",
            "bad_token" => "rejected_bad_token",
            "wrong_count" => "rejected_wrong_count",
            "wrong_link" => "rejected_wrong_link",
            "wrong_owner" => "rejected_wrong_owner",
            "left_out" => "rejected_left_out",
            _ => "rejected_removed_record",
        });
        o.shape((fault.kind(), fault.site()));
        if o.sample.is_none() && fault.kind() == "wrong_link" {
            o.sample = Some(json!({"records": ds.len(), "fault": format!("{:?}", fault)}));
        }
        if rng.chance(0.1) {
            let loaded = load_dataset(VERSION, &dir, &EvaluationTask::Detection, &FrameID::BaseLink);
            ensure!(loaded.is_err(), "a dataset with the fault {:?} loads for evaluation", fault);
            o.hit("rejected_for_evaluation");
        }
    }
    o.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------------------------------ P19

fn position_tolerance(ds: &Ds) -> f64 {
    let far = ds
        .table("ego_pose")
        .iter()
        .chain(ds.table("sample_annotation"))
        .flat_map(|v| vec3(&v["translation"]))
        .fold(1.0f64, |m, c| m.max(c.abs()));
    1e-12 * far
}

fn matches_box(x: &DynamicObject, e: &ds::ExpectedBox, tol: f64, frame_id: &FrameID) -> bool {
    // where things are in other frames than that of the vehicle is left open
    let placed = dist3(&x.position, &e.position) <= tol && qsame(&x.orientation, &e.orientation, 1e-11);
    (placed || *frame_id != FrameID::BaseLink)
        && (0..3).all(|i| (x.size[i] - e.size[i]).abs() <= 1e-14 * e.size[i])
        && x.label == e.label
        && x.pointcloud_num == Some(e.points)
        && x.uuid.as_deref() == Some(e.instance.as_str())
        && x.confidence == 1.0
        && x.frame_id == *frame_id
}

/// Compares the frames of a dataset with what its files state.
pub fn judge_frames(ds: &Ds, frames: &[FrameGroundTruth], frame_id: &FrameID, o: &mut Obs) -> Verdict {
    let tol = position_tolerance(ds);
    // one frame per sample, in time order
    let mut times: Vec<i64> = ds.table("sample").iter().map(micros).collect();
    times.sort();
    let got: Vec<i64> = frames.iter().map(|f| f.timestamp.timestamp_micros()).collect();
    ensure!(got == times, "frames are at {:?}, the samples at {:?}", got, times);
    ensure!(frames.iter().all(|f| f.timestamp.nanosecond() % 1000 == 0), "a frame is not at the time of its sample: {:?}", frames);

    let mut open: Vec<&Value> = ds.table("sample").iter().collect();
    for f in frames {
        // samples at the same time may come in any order
        let found = open.iter().position(|s| {
            if micros(s) != f.timestamp.timestamp_micros() {
                return false;
            }
            let want = lidar_pose(ds, s).map_or(Vec::new(), |p| boxes_of(ds, text(s, "token"), &[p]));
            let mut rest: Vec<&DynamicObject> = f.objects.iter().collect();
            want.len() == rest.len()
                && want.iter().all(|e| match rest.iter().position(|x| matches_box(x, e, tol, frame_id) && x.timestamp == f.timestamp) {
                    Some(i) => {
                        rest.remove(i);
                        true
                    }
                    None => false,
                })
        });
        match found {
            Some(i) => {
                let s = open.remove(i);
                o.hit("frame_confirmed");
                o.add("object_confirmed", f.objects.len() as u64);
                let has_annotations = ds.table("sample_annotation").iter().any(|a| text(a, "sample_token") == text(s, "token"));
                match lidar_pose(ds, s) {
                    None if has_annotations => {
                        o.hit("no_lidar_at_sample_time");
                    }
                    Some(p) => {
                        let t = vec3(&p["translation"]);
                        let identity = qsame(&quat4(&p["rotation"]), &[1.0, 0.0, 0.0, 0.0], 1e-9);
                        if !f.objects.is_empty() && !identity && dist3(&t, &[0.0; 3]) > 1.0 {
                            o.hit("moved_and_turned_frame");
                            o.nontrivial = true;
                        }
                    }
                    None => {}
                }
            }
            None => {
                let wants: Vec<_> = open
                    .iter()
                    .filter(|s| micros(s) == f.timestamp.timestamp_micros())
                    .map(|s| lidar_pose(ds, s).map_or(Vec::new(), |p| boxes_of(ds, text(s, "token"), &[p])))
                    .collect();
                return Err(format!(
                    "the frame at {} is {} but should be (one of) {:?}; tables: {:?}",
                    f.timestamp, gen::briefs(&f.objects), wants, ds.tables
                ));
            }
        }
    }
    Ok(())
}

fn judge_map_box(ds: &Ds, b: &NuScenesBox) -> Verdict {
    let a = ds.find("sample_annotation", &b.token.to_string());
    let i = ds.find("instance", text(a, "instance_token"));
    let c = ds.find("category", text(i, "category_token"));
    // serde_json reads decimal numbers to within some units in the last place
    let close = |x: &[f64], y: &[f64]| x.iter().zip(y).all(|(x, y)| (x - y).abs() <= 1e-15 * y.abs());
    ensure!(
        close(&b.position, &vec3(&a["translation"]))
            && close(&b.orientation, &quat4(&a["rotation"]))
            && close(&b.size, &vec3(&a["size"]))
            && b.name == text(c, "name")
            && b.instance.to_string() == text(a, "instance_token")
            && json!(b.num_lidar_pts) == a["num_lidar_pts"],
        "the box in map coordinates is {:?}, but the annotation is {} of category {}", b, a, c
    );
    Ok(())
}

pub fn p19(rng: &mut Rng, env: &Env, o: &mut Obs) -> Verdict {
    let mut params = if rng.chance(0.03) { DsParams::rich(rng) } else { DsParams::draw(rng, env.thorough) };
    params.instances = params.instances.max(1);
    let ds = ds::consistent(rng, &params);
    let dir = env.dir("ds");
    ds.write(&dir, rng, true);
    let tol = position_tolerance(&ds);

    let mut frame_id = FrameID::BaseLink;
    let frames = if rng.chance(0.5) {
        let task = match rng.below(4) {
            0 => EvaluationTask::Tracking,
            _ => EvaluationTask::Detection,
        };
        if rng.chance(0.1) {
            frame_id = rng.pick(&gen::FRAME_IDS).clone();
        }
        if frame_id != FrameID::BaseLink {
            o.hit("other_frame_ids");
        }
        load_dataset(VERSION, &dir, &task, &frame_id)
            .map_err(|e| format!("loading a consistent dataset for evaluation fails: {}", e))?
    } else {
        let mut config = gen::Settings::wide(rng, 2).config()?;
        config.version = VERSION.into();
        config.dataset_path = dir.clone();
        let m = PerceptionEvaluationManager::from(&config)
            .map_err(|e| format!("a manager of a consistent dataset cannot be made: {}", e))?;
        ensure!(m.frame_results.is_empty(), "a new manager has frame results");
        m.frame_ground_truths.clone()
    };
    judge_frames(&ds, &frames, &frame_id, o)?;

    // boxes of sensor records
    let n = load(&dir, "boxes")?;
    for d in n.sample_data_iter() {
        let v = ds.find("sample_data", &d.token.to_string());
        let ego = ds.find("ego_pose", text(v, "ego_pose_token"));
        let cs = ds.find("calibrated_sensor", text(v, "calibrated_sensor_token"));
        for (sensor_frame, poses) in [(false, vec![ego]), (true, vec![ego, cs])] {
            let (path, boxes) = n
                .get_sample_data(&d.token, &sensor_frame)
                .map_err(|e| format!("get_sample_data of {} fails: {}", d.token, e))?;
            ensure!(path == dir.join(text(v, "filename")), "path of {} is {:?}", v, path);
            let want = boxes_of(&ds, text(v, "sample_token"), &poses);
            ensure!(boxes.len() == want.len(), "{} boxes for {} annotations of {}", boxes.len(), want.len(), v);
            for e in &want {
                let found: Vec<_> = boxes.iter().filter(|b| b.token.to_string() == e.token).collect();
                ensure!(found.len() == 1, "annotation {} has {} boxes", e.token, found.len());
                let b = found[0];
                ensure!(
                    dist3(&b.position, &e.position) <= tol
                        && qsame(&b.orientation, &e.orientation, 1e-11)
                        && (0..3).all(|i| (b.size[i] - e.size[i]).abs() <= 1e-14 * e.size[i])
                        && b.name == e.name
                        && b.num_lidar_pts == e.points
                        && b.instance.to_string() == e.instance,
                    "box (sensor frame: {}) is {:?}, but should be {:?}; record {}, poses {:?}", sensor_frame, b, e, v, poses
                );
                o.hit(if sensor_frame { "sensor_frame_box_confirmed" } else { "ego_frame_box_confirmed" });
            }
        }
        // in map coordinates: as annotated
        let boxes = n.get_boxes(&d.token).map_err(|e| format!("get_boxes of {} fails: {}", d.token, e))?;
        let mut got: Vec<String> = boxes.iter().map(|b| b.token.to_string()).collect();
        let mut want: Vec<String> = ds.table("sample_annotation").iter().filter(|a| text(a, "sample_token") == text(v, "sample_token")).map(|a| text(a, "token").into()).collect();
        got.sort();
        want.sort();
        ensure!(got == want, "get_boxes of {} gives {:?}, its sample has {:?}", v, got, want);
        for b in &boxes {
            judge_map_box(&ds, b)?;
        }
        o.hit("map_boxes_confirmed");
    }
    for a in n.sample_annotation_iter() {
        let b = n.get_box(&a.token).map_err(|e| format!("get_box of {} fails: {}", a.token, e))?;
        ensure!(b.token == a.token, "get_box of {} gives {:?}", a.token, b);
        judge_map_box(&ds, &b)?;
        o.hit("map_box_confirmed");
    }
    // tokens that name nothing of the kind
    for _ in 0..4 {
        let tables = ["sample_annotation", "sample", "instance", "ego_pose", "sample_data", "scene"];
        let mut bytes: Vec<u8> = (0..16).map(|_| rng.below(256) as u8).collect();
        let table = *rng.pick(&tables);
        if let (true, Some(r)) = (rng.chance(0.7), ds.table(table).first()) {
            bytes = (0..16).map(|i| u8::from_str_radix(&text(r, "token")[2 * i..2 * i + 2], 16).unwrap()).collect();
            if rng.chance(0.3) {
                bytes[15] ^= 1;
            }
        }
        let hex: String = bytes.iter().map(|b| format!("{:02x}", b)).collect();
        let token: LongToken = serde_json::from_value(json!(hex)).map_err(|e| format!("the token {} is rejected: {}", hex, e))?;
        let has = |table: &str| ds.table(table).iter().any(|r| text(r, "token").eq_ignore_ascii_case(&hex));
        if !has("sample_data") {
            ensure!(n.get_sample_data_path(&token).is_err(), "{} is no sensor record but has a path", hex);
            ensure!(n.get_sample_data(&token, &true).is_err() && n.get_sample_data(&token, &false).is_err(), "{} is no sensor record but has data", hex);
            ensure!(n.get_boxes(&token).is_err(), "{} is no sensor record but has boxes", hex);
            o.hit("other_token_rejected");
        }
        if !has("sample_annotation") {
            ensure!(n.get_box(&token).is_err(), "{} is no annotation but has a box", hex);
            o.hit("other_token_rejected");
        }
    }
    o.shape((frames.len(), frames.iter().map(|f| f.objects.len()).collect::<Vec<_>>()));
    o.sample = Some(json!({
        "frames": frames.iter().map(|f| json!([f.timestamp.to_string(), f.objects.len()])).collect::<Vec<_>>(),
        "object": frames.iter().flat_map(|f| &f.objects).next().map(gen::brief),
    }));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P20

fn number(rng: &mut Rng) -> f64 {
    match rng.below(8) {
        0 => 0.0,
        1 => rng.int(-1000, 1000) as f64,
        2 => rng.normal() * 1e-9,
        3 => rng.range(-1e9, 1e9),
        4 => *rng.pick(&[0.1, 1.0 / 3.0, 1e-300, 1.7e308, -1e22, 123456789012345680.0]),
        _ => rng.normal(),
    }
}

fn numbers(rng: &mut Rng, n: usize) -> Value {
    if rng.chance(0.1) {
        let same = number(rng);
        return json!(vec![same; n]);
    }
    json!((0..n).map(|_| number(rng)).collect::<Vec<_>>())
}

fn time_value(rng: &mut Rng) -> Value {
    match rng.below(6) {
        0 => json!(rng.int(0, 10)),
        // the JSON parser is exact up to 2^54 in the last written digit
        1 => json!(rng.int(0, 1_799_000_000_000_000) as f64),
        2 => json!(rng.int(0, 1_799_000_000_000_000) as f64 + *rng.pick(&[0.25, 0.5, 0.75])),
        3 => json!(rng.int(-2_000_000_000_000_000, 0)),
        4 => json!(rng.int(0, 1_000_000_000) as f64 + rng.f()),
        _ => json!(rng.int(1_400_000_000_000_000, 3_900_000_000_000_000)),
    }
}

fn link_value(rng: &mut Rng) -> Value {
    if rng.chance(0.3) {
        json!("")
    } else {
        token_text(rng)
    }
}

fn token_text(rng: &mut Rng) -> Value {
    let t = match rng.below(25) {
        0 => "0".repeat(32),
        1 => "f".repeat(32),
        _ => ds::token(rng),
    };
    json!(if rng.chance(0.1) { t.to_uppercase() } else { t })
}

fn free_text(rng: &mut Rng) -> Value {
    if rng.chance(0.3) {
        return json!(ds::any_text(rng));
    }
    let pool = ["", " ", "0", "scene-0061", "naïve", "a\"b", "back\\slash", "tab\tnew\nline", "東京", "\u{1F600}", "null", "  spaces  "];
    json!(*rng.pick(&pool))
}

fn path_text(rng: &mut Rng) -> Value {
    if rng.chance(0.2) {
        return json!(*rng.pick(&["a//b", "./a", "a/", "a/./b", "..", "/", "~/a", "a\\b", "C:\\a", "a%20b", " a ", "a\nb", "\u{feff}a", "file:///a", "a/../b", "A.BIN"]));
    }
    json!(*rng.pick(&["a.bin", "samples/LIDAR_TOP/x.pcd.bin", "/abs/olute.png", "sp ace/ü.jpg", "../up/x", "dir.with.dots/..x"]))
}

/// Reads, writes, reads and writes again; compares what was written with the canonical form.
fn round_trip<T: Serialize + DeserializeOwned + std::fmt::Debug>(o: &mut Obs, input: &Value, canonical: &Value) -> Verdict {
    let text_in = input.to_string();
    let r1: T = serde_json::from_str(&text_in).map_err(|e| format!("{} cannot be read: {}", text_in, e))?;
    let t1 = serde_json::to_string(&r1).map_err(|e| format!("{:?} cannot be written: {}", r1, e))?;
    let v1: Value = serde_json::from_str(&t1).map_err(|e| format!("{} is no JSON: {}", t1, e))?;
    // from a tree and from a reader instead of a text
    let r2: T = serde_json::from_str(&t1).map_err(|e| format!("what is written cannot be read: {}: {}", t1, e))?;
    let v2: Value = serde_json::to_value(&r2).map_err(|e| format!("{:?} cannot be written: {}", r2, e))?;
    let r3: T = serde_json::from_reader(t1.as_bytes()).map_err(|e| format!("what is written cannot be read: {}: {}", t1, e))?;
    let v3: Value = serde_json::to_value(&r3).map_err(|e| format!("{:?} cannot be written: {}", r3, e))?;
    for v in [&v1, &v2, &v3] {
        ensure!(written_as(v, canonical), "{} is written as {}, not {}", text_in, v, canonical);
    }
    o.hit("record_round_trip");
    Ok(())
}

/// Like `agree`, timestamps to the microsecond.
fn written_as(v: &Value, canonical: &Value) -> bool {
    let (a, b) = match (v.as_object(), canonical.as_object()) {
        (Some(a), Some(b)) => (a, b),
        _ => return false,
    };
    a.len() == b.len()
        && b.iter().all(|(k, w)| match a.get(k) {
            Some(x) if k == "timestamp" => match (x.as_f64(), w.as_f64()) {
                (Some(x), Some(w)) => {
                    if w == w.floor() {
                        x == w
                    } else {
                        (x - w).abs() < 1.0
                    }
                }
                _ => false,
            },
            Some(x) => agree(x, w),
            None => false,
        })
}

fn lower(v: &Value) -> Value {
    match v {
        Value::String(s) => json!(s.to_lowercase()),
        Value::Array(a) => Value::Array(a.iter().map(lower).collect()),
        other => other.clone(),
    }
}

fn hex_token(t: &str) -> bool {
    t.len() == 32 && t.bytes().all(|b| b.is_ascii_hexdigit())
}

pub fn p20(rng: &mut Rng, _env: &Env, o: &mut Obs) -> Verdict {
    let token_fields = [
        "token", "sensor_token", "category_token", "first_annotation_token", "last_annotation_token", "log_tokens", "next", "prev",
        "scene_token", "sample_token", "instance_token", "attribute_tokens", "ego_pose_token", "calibrated_sensor_token", "log_token",
        "first_sample_token", "last_sample_token",
    ];
    let canonical = |v: &Value| -> Value {
        let mut c = v.clone();
        let m = c.as_object_mut().unwrap();
        for (k, x) in m.iter_mut() {
            if token_fields.contains(&k.as_str()) {
                *x = lower(x);
            }
        }
        c
    };
    let tokens = |rng: &mut Rng| {
        let mut list: Vec<_> = (0..rng.below(4)).map(|_| token_text(rng)).collect();
        if rng.chance(0.1) && !list.is_empty() {
            let again = rng.pick(&list).clone();
            list.push(again);
        }
        json!(list)
    };

    let v = json!({"token": token_text(rng), "description": free_text(rng), "name": free_text(rng)});
    round_trip::<schema::Attribute>(o, &v, &canonical(&v))?;
    round_trip::<schema::Category>(o, &v, &canonical(&v))?;

    let intrinsic = match rng.below(10) {
        0..=3 => json!([]),
        4 => json!(vec![vec![0.0; 3]; 3]),
        5 => json!([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
        6 => json!(vec![vec![number(rng); 3]; 3]),
        _ => json!([numbers(rng, 3), numbers(rng, 3), numbers(rng, 3)]),
    };
    let v = json!({"token": token_text(rng), "sensor_token": token_text(rng), "rotation": numbers(rng, 4),
                   "camera_intrinsic": intrinsic, "translation": numbers(rng, 3)});
    round_trip::<schema::CalibratedSensor>(o, &v, &canonical(&v))?;

    let v = json!({"token": token_text(rng), "timestamp": time_value(rng), "rotation": numbers(rng, 4), "translation": numbers(rng, 3)});
    round_trip::<schema::EgoPose>(o, &v, &canonical(&v))?;
    let us = v["timestamp"].as_f64().unwrap();
    let read: schema::EgoPose = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    let off = nanos(&read.timestamp) as f64 / 1000.0 - us;
    ensure!(off.abs() < 1.0, "timestamp {} is read as {}", v["timestamp"], read.timestamp);
    if us == us.floor() {
        ensure!(nanos(&read.timestamp) == us as i128 * 1000, "timestamp {} is read as {}", v["timestamp"], read.timestamp);
        o.hit("whole_timestamp");
    } else {
        o.hit("fractional_timestamp");
    }

    let v = json!({"token": token_text(rng), "nbr_annotations": rng.below(100000), "category_token": token_text(rng),
                   "first_annotation_token": token_text(rng), "last_annotation_token": token_text(rng)});
    round_trip::<schema::Instance>(o, &v, &canonical(&v))?;

    let date = if rng.chance(0.3) { Value::Null } else { json!(format!("{:04}-{:02}-{:02}", if rng.chance(0.7) { 1970 + rng.below(80) } else { 1 + rng.below(9999) }, 1 + rng.below(12), 1 + rng.below(28))) };
    let v = json!({"token": token_text(rng), "date_captured": date, "location": free_text(rng), "vehicle": free_text(rng),
                   "logfile": if rng.chance(0.4) { json!("") } else { path_text(rng) }});
    round_trip::<schema::Log>(o, &v, &canonical(&v))?;
    if v["logfile"] == "" {
        o.hit("absent_logfile");
    }

    let v = json!({"token": token_text(rng), "log_tokens": tokens(rng), "filename": path_text(rng), "category": free_text(rng)});
    round_trip::<schema::Map>(o, &v, &canonical(&v))?;

    let v = json!({"token": token_text(rng), "next": link_value(rng), "prev": link_value(rng), "scene_token": token_text(rng), "timestamp": time_value(rng)});
    round_trip::<schema::Sample>(o, &v, &canonical(&v))?;
    if v["prev"] == "" || v["next"] == "" {
        o.hit("absent_link");
    }

    let v = json!({"token": token_text(rng), "num_lidar_pts": rng.below(1 << 40), "num_radar_pts": rng.below(10), "size": numbers(rng, 3),
                   "rotation": numbers(rng, 4), "translation": numbers(rng, 3), "sample_token": token_text(rng),
                   "instance_token": token_text(rng), "attribute_tokens": tokens(rng),
                   "visibility_token": *rng.pick(&["", "1", "v80-100", "Full", " ", "0", "null", "\u{e9}"]), "prev": link_value(rng), "next": link_value(rng)});
    round_trip::<schema::SampleAnnotation>(o, &v, &canonical(&v))?;

    let (format, format_out) = *rng.pick(&[("bin", "bin"), ("pcd", "bin"), ("jpeg", "jpeg"), ("jpg", "jpeg"), ("png", "png")]);
    let v = json!({"token": token_text(rng), "fileformat": format, "is_key_frame": rng.chance(0.5), "filename": path_text(rng),
                   "timestamp": time_value(rng), "sample_token": token_text(rng), "ego_pose_token": token_text(rng),
                   "calibrated_sensor_token": token_text(rng), "prev": link_value(rng), "next": link_value(rng)});
    let mut c = canonical(&v);
    c["fileformat"] = json!(format_out);
    round_trip::<schema::SampleData>(o, &v, &c)?;

    let v = json!({"token": token_text(rng), "name": free_text(rng), "description": free_text(rng), "log_token": token_text(rng),
                   "nbr_samples": rng.below(1000), "first_sample_token": token_text(rng), "last_sample_token": token_text(rng)});
    round_trip::<schema::Scene>(o, &v, &canonical(&v))?;

    let (modality, mut channel) = *rng.pick(ds::CHANNELS);
    let channel_out = channel;
    if channel == "LIDAR_TOP" && rng.chance(0.5) {
        channel = "LIDAR_CONCAT";
    }
    let v = json!({"token": token_text(rng), "modality": modality, "channel": channel});
    let mut c = canonical(&v);
    c["channel"] = json!(channel_out);
    round_trip::<schema::Sensor>(o, &v, &c)?;
    let s: schema::Sensor = serde_json::from_value(v).map_err(|e| e.to_string())?;
    ensure!(
        format!("{:?}", s.channel) == canonical_enum("channel", channel_out) && format!("{:?}", s.modality) == canonical_enum("modality", modality),
        "channel {} is read as {:?}, modality {} as {:?}", channel, s.channel, modality, s.modality
    );

    let (level, level_out) = *rng.pick(&[
        ("v0-40", "v0-40"), ("none", "v0-40"), ("v40-60", "v40-60"), ("partial", "v40-60"), ("v60-80", "v60-80"), ("most", "v60-80"),
        ("v80-100", "v80-100"), ("full", "v80-100"),
    ]);
    let v = json!({"token": free_text(rng), "level": level, "description": free_text(rng)});
    let mut c = v.clone();
    c["level"] = json!(level_out);
    round_trip::<schema::Visibility>(o, &v, &c)?;
    if level != level_out || format != format_out || channel != channel_out {
        o.hit("alternative_spelling");
    }

    // tokens
    for _ in 0..12 {
        let good = ds::token(rng);
        let text = match rng.below(10) {
            0 => good.clone(),
            1 => good.to_uppercase(),
            2 => good[..rng.below(32)].to_string(),
            3 => format!("{}{}", good, &good[..1 + rng.below(32)]),
            4 => {
                // one character is no digit
                let at = rng.below(32);
                let c = *rng.pick(&["g", " ", "-", "G", "\u{e9}", "\0", "\n", "x"]);
                format!("{}{}{}", &good[..at], c, &good[at + 1..])
            }
            5 => format!("{}-{}-{}-{}-{}", &good[..8], &good[8..12], &good[12..16], &good[16..20], &good[20..]),
            6 => format!(" {} ", good),
            7 => "\u{ff11}".repeat(32),
            8 => "\u{e9}".repeat(16),
            _ => good.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
        };
        let want = hex_token(&text);
        let (long, short) = (LongToken::try_from(text.as_str()), ShortToken::try_from(text.as_str()));
        ensure!(
            long.is_ok() == want && short.is_ok() == want,
            "token {:?} should be {}, but is {:?} and {:?}", text, if want { "accepted" } else { "rejected" }, long, short
        );
        if let (Ok(l), Ok(s)) = (long, short) {
            ensure!(l.to_string() == text.to_lowercase() && s.to_string() == text.to_lowercase(), "token {:?} prints as {} and {}", text, l, s);
            ensure!(LongToken::try_from(l.to_string().as_str()).ok() == Some(l), "token {:?} does not parse back", text);
            ensure!(ShortToken::try_from(s.to_string().as_str()).ok() == Some(s), "token {:?} does not parse back", text);
            o.hit("token_accepted");
        } else {
            o.hit("token_rejected");
        }
        let as_json: Result<LongToken, _> = serde_json::from_value(json!(text));
        ensure!(as_json.is_ok() == want, "token {:?} read from JSON: {:?}", text, as_json);
        let as_json: Result<ShortToken, _> = serde_json::from_value(json!(text));
        ensure!(as_json.is_ok() == want, "map token {:?} read from JSON: {:?}", text, as_json);
        // as a link
        let link = json!({"token": good, "next": text, "prev": "", "scene_token": good, "timestamp": 0});
        let sample: Result<schema::Sample, _> = serde_json::from_value(link);
        match sample {
            Ok(s) => ensure!(
                (want || text.is_empty()) && opt(&s.next) == text.to_lowercase() && s.next.is_some() == want,
                "the link {:?} is read as {:?}", text, s.next
            ),
            Err(e) => ensure!(!want && !text.is_empty(), "the link {:?} is rejected: {}", text, e),
        }
    }
    o.nontrivial = true;
    o.shape(v.to_string());
    o.sample = Some(json!({"last_record": v, "format": [format, format_out]}));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P21

pub fn write_file(path: &Path, bytes: &[u8]) {
    std::fs::create_dir_all(path.parent().unwrap()).expect("harness: folder");
    std::fs::write(path, bytes).expect("harness: file");
}

pub fn cloud_bytes(rng: &mut Rng, len: usize) -> Vec<u8> {
    let mut bytes: Vec<u8> = Vec::with_capacity(len + 4);
    while bytes.len() < len {
        if bytes.len() >= 100_000 {
            // the rest repeats what is there, displaced
            let at = rng.below(200);
            let n = 4 * rng.below(20_000);
            bytes.extend_from_within(at..at + n);
            continue;
        }
        let value = match rng.below(6) {
            0 => (rng.u64() as u32).to_le_bytes(),
            1 => (0x7fc0_0000u32 | rng.below(1 << 20) as u32).to_le_bytes(), // NaN with a payload
            2 => f32::to_le_bytes(*rng.pick(&[0.0, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, 1e-42])),
            _ => f32::to_le_bytes(rng.normal() as f32 * 50.0),
        };
        bytes.extend(value);
    }
    bytes.truncate(len);
    // points that look like padding, or like each other
    let n = len / 20;
    if n > 0 && rng.chance(0.2) {
        let k = 1 + rng.below(n);
        let k = if rng.chance(0.5) { k.min(3) } else { k };
        let (from, to) = match rng.below(3) {
            0 => (0, k),
            1 => (n - k, n),
            _ => {
                let at = rng.below(n - k + 1);
                (at, at + k)
            }
        };
        let point: [u8; 20] = match rng.below(4) {
            0 => [0xff; 20],
            1 => bytes[..20].try_into().unwrap(),
            _ => [0; 20],
        };
        for i in from..to {
            bytes[20 * i..20 * i + 20].copy_from_slice(&point);
        }
    }
    // the points may read like something else
    if rng.chance(0.1) {
        let text = *rng.pick(&STARTS);
        let n = text.len().min(len);
        bytes[..n].copy_from_slice(&text[..n]);
        if rng.chance(0.5) {
            for _ in 0..1 + rng.below(3) {
                let at = rng.below(len.max(1));
                if at < len {
                    bytes[at] = b'\n';
                }
            }
        }
    }
    bytes
}

/// What files of other formats begin with.
const STARTS: [&[u8]; 22] = [
    b"# .PCD v0.7 - Point Cloud Data file format\nVERSION 0.7\nFIELDS x y z intensity ring\nDATA binary\n",
    b"# .PCD",
    b"#",
    b"ply\nformat binary_little_endian 1.0\n",
    b"LASF",
    b"\x1f\x8b\x08",
    b"PK\x03\x04",
    b"\x89PNG\r\n\x1a\n",
    b"\xff\xd8\xff",
    b"\x93NUMPY\x01\x00",
    b"\xef\xbb\xbf",
    b"\xfe\xff",
    b"\xff\xfe",
    b"{",
    b"[",
    b"VERSION",
    b"0.5 1.5 2.5 3 4\n",
    b"0.5,1.5,2.5,3,4\n",
    b"\x28\xb5\x2f\xfd",
    b"BZh9",
    b"\xfd7zXZ\x00",
    b"\x04\x22\x4d\x18",
];

fn random_image(rng: &mut Rng) -> image::DynamicImage {
    use image::DynamicImage::*;
    let (w, h) = (1 + rng.below(24) as u32, 1 + rng.below(24) as u32);
    let (w, h) = if rng.chance(0.003) { (w * 29, h * 23) } else { (w, h) };
    let (w, h) = if rng.chance(0.004) { (1 + rng.below(65_500) as u32, 1) } else { (w, h) };
    let (w, h) = if rng.chance(0.5) { (h, w) } else { (w, h) };
    let kind = rng.below(10);
    let few = rng.chance(0.2);
    let mut byte = || if few { (rng.u64() as u8) & 1 } else { rng.u64() as u8 };
    let mut word = || u16::from_le_bytes([byte(), byte()]);
    match kind {
        0 => ImageRgb16(image::ImageBuffer::from_fn(w, h, |_, _| image::Rgb([word(), word(), word()]))),
        1 => ImageRgba16(image::ImageBuffer::from_fn(w, h, |_, _| image::Rgba([word(), word(), word(), word()]))),
        2 => ImageLuma16(image::ImageBuffer::from_fn(w, h, |_, _| image::Luma([word()]))),
        3 => ImageLumaA16(image::ImageBuffer::from_fn(w, h, |_, _| image::LumaA([word(), word()]))),
        4 => ImageLumaA8(image::ImageBuffer::from_fn(w, h, |_, _| image::LumaA([byte(), byte()]))),
        5 | 6 => ImageLuma8(image::ImageBuffer::from_fn(w, h, |_, _| image::Luma([byte()]))),
        7 => ImageRgba8(image::ImageBuffer::from_fn(w, h, |_, _| image::Rgba([byte(), byte(), byte(), byte()]))),
        _ => ImageRgb8(image::ImageBuffer::from_fn(w, h, |_, _| image::Rgb([byte(), byte(), byte()]))),
    }
}

fn encode(img: &image::DynamicImage, format: image::ImageOutputFormat) -> Vec<u8> {
    let mut out = std::io::Cursor::new(Vec::new());
    img.write_to(&mut out, format).expect("harness: encode");
    out.into_inner()
}

/// Another place for the file, or another way to write the place.
fn unusual_path(rng: &mut Rng, dir: &Path, name: &str) -> String {
    let (folders, file) = name.rsplit_once('/').unwrap();
    match rng.below(7) {
        0 => format!("./{}", name),
        1 => {
            std::fs::create_dir_all(dir.join("detour")).expect("harness: mkdir");
            format!("detour/../{}", name)
        }
        2 => format!("../shared/{}", name),
        3 => format!("{}//{}", folders, file),
        4 => format!("a b/{}/{}", folders, file.replace('0', "é ")),
        5 => dir.join("elsewhere").join(name).to_str().unwrap().to_string(),
        _ => format!("{}/{}", folders, file.to_lowercase().replacen('.', ".x.", 1)),
    }
}

pub fn p21(rng: &mut Rng, env: &Env, o: &mut Obs) -> Verdict {
    let mut params = DsParams::small(rng);
    params.sensors = 2;
    let mut ds = ds::consistent(rng, &params);
    env.dir("shared");
    let dir = env.dir("ds");
    enum Content {
        Missing,
        Cloud(Vec<u8>),
        Image(image::DynamicImage, Vec<u8>),
        Lossy(Vec<u8>),
    }
    let mut contents: HashMap<String, Content> = HashMap::new();
    let mut clouds: Vec<(String, Vec<u8>)> = Vec::new();
    let n = ds.table("sample_data").len();
    for i in 0..n {
        let cs = text(&ds.table("sample_data")[i], "calibrated_sensor_token").to_string();
        let sensor = text(ds.find("calibrated_sensor", &cs), "sensor_token").to_string();
        let modality = text(ds.find("sensor", &sensor), "modality").to_string();
        let v = &mut ds.tables.get_mut("sample_data").unwrap()[i];
        let id = text(v, "token").to_string();
        if rng.chance(0.1) {
            contents.insert(id, Content::Missing);
            continue;
        }
        if modality == "lidar" {
            let folder = *rng.pick(&["LIDAR_TOP", "lidar", "LIDAR_CONCAT", "Lidar_front"]);
            let name = if rng.chance(0.1) { format!("{}/{:05}.pcd.bin", folder, i) } else { format!("data/{}/{:05}.pcd.bin", folder, i) };
            let name = if rng.chance(0.2) { unusual_path(rng, &dir, &name) } else { name };
            v["filename"] = json!(name);
            let points = match rng.below(6) {
                0 => 1,
                1 => 2 + rng.below(4),
                2 => 5,
                3 => rng.below(if env.thorough { 20000 } else { 2000 }),
                _ => 1 + rng.below(60),
            };
            let points = if rng.chance(0.004) { 20_000 + rng.below(250_000) } else { points };
            let len = match rng.below(8) {
                0 => points * 20 + 1 + rng.below(19),
                1 => points * 20 + 4 * (1 + rng.below(4)),
                2 => rng.below(20),
                3 if rng.chance(0.3) => 0,
                _ => points.max(1) * 20,
            };
            if !clouds.is_empty() && rng.chance(0.1) {
                // the file of another record, itself or by a link
                let (other, bytes) = rng.pick(&clouds).clone();
                if rng.chance(0.5) {
                    v["filename"] = json!(other);
                } else {
                    std::fs::create_dir_all(dir.join(&name).parent().unwrap()).expect("harness: folder");
                    let made = if rng.chance(0.5) {
                        std::os::unix::fs::symlink(dir.join(&other), dir.join(&name))
                    } else {
                        std::fs::hard_link(dir.join(&other), dir.join(&name))
                    };
                    made.expect("harness: link");
                }
                contents.insert(id, Content::Cloud(bytes));
                o.hit("shared_sensor_file");
                continue;
            }
            let bytes = cloud_bytes(rng, len);
            write_file(&dir.join(&name), &bytes);
            clouds.push((name, bytes.clone()));
            contents.insert(id, Content::Cloud(bytes));
        } else if modality == "camera" {
            let img = random_image(rng);
            let png = rng.chance(0.6);
            let name = format!("data/CAM/{:05}.{}", i, if png { "png" } else { *rng.pick(&["jpg", "jpeg"]) });
            let name = if rng.chance(0.2) { unusual_path(rng, &dir, &name) } else { name };
            v["filename"] = json!(name);
            v["fileformat"] = json!(if png { "png" } else { *rng.pick(&["jpg", "jpeg"]) });
            if png {
                let bytes = encode(&img, image::ImageOutputFormat::Png);
                write_file(&dir.join(&name), &bytes);
                contents.insert(id, Content::Image(img, bytes));
            } else {
                let grey = matches!(img, image::DynamicImage::ImageLuma8(_));
                let img = if grey { img } else { image::DynamicImage::ImageRgb8(img.to_rgb8()) };
                let bytes = encode(&img, image::ImageOutputFormat::Jpeg(90));
                write_file(&dir.join(&name), &bytes);
                contents.insert(id, Content::Lossy(bytes));
            }
        }
    }
    ds.write(&dir, rng, true);
    let nusc = load(&dir, "with sensor data")?;
    for d in nusc.sample_data_iter() {
        let v = ds.find("sample_data", &d.token.to_string());
        let content = match contents.get(&d.token.to_string()) {
            Some(c) => c,
            None => continue,
        };
        // raw bytes
        let raw = match content {
            Content::Missing => None,
            Content::Cloud(b) | Content::Lossy(b) | Content::Image(_, b) => Some(b),
        };
        let opened = d.open().ok().map(|mut f| {
            let mut b = Vec::new();
            std::io::Read::read_to_end(&mut f, &mut b).expect("harness: read");
            b
        });
        ensure!(opened.as_ref() == raw, "opening {} gives {:?} bytes, the file has {:?}", v, opened.map(|b| b.len()), raw.map(|b| b.len()));
        let loaded_raw = d.load_raw();
        match (&loaded_raw, raw) {
            (Ok(b), Some(r)) => {
                ensure!(b == r, "the raw read of {} differs from the file", v);
                o.hit("raw_read_compared");
            }
            (Err(_), None) => o.hit("missing_file_rejected"),
            _ => return Err(format!("the raw read of {} gives {:?} bytes, the file has {:?}", v, loaded_raw.map(|b| b.len()), raw.map(|b| b.len()))),
        }
        let at = nusc.get_sample_data_path(&d.token).map_err(|e| e.to_string())?;
        ensure!(at == dir.join(text(v, "filename")), "path of {} is {:?}", v, at);

        let loaded = d.load();
        match content {
            Content::Missing => ensure!(loaded.is_err(), "loading the missing file of {} succeeds", v),
            Content::Cloud(bytes) if bytes.is_empty() || bytes.len() % 20 != 0 => {
                ensure!(loaded.is_err(), "a point cloud of {} bytes loads", bytes.len());
                o.hit("partial_cloud_rejected");
            }
            Content::Cloud(bytes) => {
                let m = match loaded {
                    Ok(LoadedSampleData::PointCloud(m)) => m,
                    Ok(_) => return Err(format!("the lidar record {} loads as an image", v)),
                    Err(e) => return Err(format!("the point cloud of {} with {} bytes does not load: {}", v, bytes.len(), e)),
                };
                ensure!(m.nrows() == bytes.len() / 20 && m.ncols() == 5, "{} points load as {} x {}", bytes.len() / 20, m.nrows(), m.ncols());
                for r in 0..m.nrows() {
                    for c in 0..5 {
                        let at = r * 20 + c * 4;
                        let want = u32::from_le_bytes([bytes[at], bytes[at + 1], bytes[at + 2], bytes[at + 3]]);
                        ensure!(
                            m[(r, c)].to_bits() == want,
                            "value {} of point {} of {} is {:#x}, not {:#x}", c, r, m.nrows(), m[(r, c)].to_bits(), want
                        );
                    }
                    o.hit("point_compared");
                }
                o.hit("cloud_confirmed");
                o.nontrivial = true;
                o.shape(("cloud", m.nrows()));
            }
            Content::Image(..) | Content::Lossy(_) => {
                let got = match loaded {
                    Ok(LoadedSampleData::Image(i)) => i,
                    Ok(_) => return Err(format!("the image record {} loads as a point cloud", v)),
                    Err(e) => return Err(format!("the image of {} does not load: {}", v, e)),
                };
                let want = match content {
                    Content::Image(i, _) => i.clone(),
                    _ => image::load_from_memory_with_format(raw.unwrap(), image::ImageFormat::Jpeg).expect("harness: jpeg"),
                };
                ensure!(
                    (got.width(), got.height()) == (want.width(), want.height()) && got.to_rgba16() == want.to_rgba16(),
                    "the pixels of {} differ: {}x{} and {}x{}", v, got.width(), got.height(), want.width(), want.height()
                );
                o.hit("image_confirmed");
                if want.color().bits_per_pixel() / want.color().channel_count() as u16 == 16 {
                    o.hit("image_of_16_bits");
                }
                o.shape(("image", got.width(), got.height()));
            }
        }
    }
    // what is in the file counts when it is read, not what was there before
    for d in nusc.sample_data_iter() {
        if !matches!(contents.get(&d.token.to_string()), Some(Content::Cloud(_))) || !rng.chance(0.15) {
            continue;
        }
        let v = ds.find("sample_data", &d.token.to_string());
        let file = dir.join(text(v, "filename"));
        let before = std::fs::read(&file).ok().map_or(20, |b| b.len());
        for _ in 0..2 {
            match rng.below(4) {
                0 if file.exists() => std::fs::remove_file(&file).expect("harness: remove"),
                1 => write_file(&file, &cloud_bytes(rng, before)),
                2 => {
                    let len = 20 * (1 + rng.below(30));
                    write_file(&file, &cloud_bytes(rng, len));
                }
                _ => {
                    // another file under this name
                    let other = dir.join("another");
                    write_file(&other, &cloud_bytes(rng, before));
                    std::fs::rename(&other, &file).expect("harness: rename");
                }
            }
            let now = std::fs::read(&file).ok();
            let raw = d.load_raw().ok();
            ensure!(raw == now, "after the file changed the raw read of {} gives {:?} bytes, the file has {:?}", v, raw.map(|b| b.len()), now.map(|b| b.len()));
            let whole = now.filter(|b| !b.is_empty() && b.len() % 20 == 0);
            match (d.load(), whole) {
                (Ok(LoadedSampleData::PointCloud(m)), Some(b)) => {
                    let bits = (0..m.nrows()).flat_map(|r| (0..m.ncols()).map(move |c| (r, c))).map(|at| m[at].to_bits());
                    let want = b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]));
                    ensure!(m.ncols() == 5 && bits.eq(want), "after the file changed the cloud of {} is another", v);
                }
                (Err(_), None) => {}
                (loaded, whole) => {
                    return Err(format!("after the file changed {} {} (the file has {:?} bytes)", v, if loaded.is_ok() { "loads" } else { "does not load" }, whole.map(|b| b.len())))
                }
            }
            o.hit("changed_file_compared");
            if !file.exists() {
                break;
            }
        }
    }
    o.sample = Some(json!({"records": n, "written": contents.len()}));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P22

/// Touches everything that is reachable from a loaded dataset.
fn walk(n: &NuScenes, o: &mut Obs) {
    let _ = (n.version(), n.dir(), observed_records(n), ordered(n));
    for c in n.calibrated_sensor_iter() {
        let _ = c.sensor().channel.clone();
    }
    #[cfg(feature = "iterators")]
    for i in n.instance_iter() {
        let _ = (i.category().name.clone(), i.sample_annotation_iter().count());
    }
    #[cfg(feature = "iterators")]
    for m in n.map_iter() {
        let _ = m.log_iter().count();
    }
    for s in n.scene_iter() {
        let _ = (s.log().location.clone(), s.sample_iter().count());
    }
    for s in n.sample_iter() {
        let _ = (s.scene().name.clone(), s.prev().is_some(), s.next().is_some(), s.sample_annotation_iter().count(), s.sample_data_iter().count());
    }
    for a in n.sample_annotation_iter() {
        let _ = (a.sample().timestamp, a.instance().token.clone(), a.attribute_iter().count(), a.prev().is_some(), a.next().is_some());
        let _ = n.get_box(&a.token);
    }
    for d in n.sample_data_iter() {
        let _ = (d.sample().timestamp, d.ego_pose().rotation, d.calibrated_sensor().rotation, d.prev().is_some(), d.next().is_some());
        let _ = (n.get_boxes(&d.token), n.get_sample_data(&d.token, &true), n.get_sample_data(&d.token, &false), n.get_sample_data_path(&d.token));
        let _ = d.load_raw();
        match d.load() {
            Ok(LoadedSampleData::PointCloud(m)) => {
                let sum: f32 = m.iter().sum();
                std::hint::black_box(sum);
                o.hit("hostile_cloud_loaded");
            }
            Ok(LoadedSampleData::Image(i)) => {
                std::hint::black_box(i.to_rgba8().len());
            }
            Err(e) => {
                let _ = e.to_string();
                o.hit("hostile_sensor_file_rejected");
            }
        }
        o.hit("record_walked");
    }
}

const SPLICES: &[&str] = &[
    "\"\"", "null", "-1", "0", "1e999", "-1e308", "18446744073709551616", "9223372036854775807", "1.5", "[]", "{}", "[[", "]]", "\"", "\\",
    "\u{0}", "\\u0000", "\\ud800", "true", ",", ":", "é", "\u{feff}", "1e400", "99999999999999999999", "NaN", "1e18", "-9223372036854775808",
];

fn mutate(rng: &mut Rng, bytes: &mut Vec<u8>, depths: &[usize], o: &mut Obs) {
    for _ in 0..1 + rng.below(4) {
        let n = bytes.len();
        match rng.below(9) {
            0 if n > 0 => {
                let at = rng.below(n);
                bytes[at] ^= 1 << rng.below(8);
            }
            1 if n > 0 => {
                let at = rng.below(n);
                bytes[at] = rng.u64() as u8;
            }
            2 => {
                let at = rng.below(n + 1);
                let s = rng.pick(SPLICES).as_bytes();
                bytes.splice(at..at, s.iter().copied());
            }
            3 if n > 2 => {
                let (a, b) = (rng.below(n), rng.below(n));
                let (a, b) = (a.min(b), a.max(b).min(a.min(b) + 64));
                bytes.drain(a..b);
            }
            4 if n > 2 => {
                let (a, b) = (rng.below(n), rng.below(n));
                let chunk: Vec<u8> = bytes[a.min(b)..a.max(b).min(a.min(b) + 600)].to_vec();
                let at = rng.below(n);
                bytes.splice(at..at, chunk);
            }
            5 => bytes.truncate(rng.below(n + 1)),
            6 | 7 => {
                // replace a value: numbers, texts, lists
                let starts: Vec<usize> = (0..n).filter(|i| bytes[*i] == b':' || bytes[*i] == b',').collect();
                if !starts.is_empty() {
                    let at = *rng.pick(&starts) + 1;
                    let end = (at..n).find(|i| matches!(bytes[*i], b',' | b'}' | b']' | b'\n')).unwrap_or(n);
                    let s = if rng.chance(0.2) {
                        // long, of characters of one to four bytes
                        let most = *rng.pick(&[40, 300, 3000]);
                        let n = rng.below(most);
                        let chars = *rng.pick(&[&['é', '€'][..], &['a', 'é', '版', '🚗'], &['ß'], &['🚗', ' '], &['x', '\u{301}']]);
                        o.hit("long_text_tried");
                        format!(" \"{}\"", (0..n).map(|_| *rng.pick(chars)).collect::<String>()).into_bytes()
                    } else {
                        rng.pick(SPLICES).as_bytes().to_vec()
                    };
                    bytes.splice(at..end, s);
                }
            }
            _ => {
                // deep nesting
                let depth = *rng.pick(depths);
                let (open, at) = (*rng.pick(&["[", "{\"a\":", "- ", "[[", "&a [*a,"]), rng.below(n + 1));
                let nested = open.repeat(depth);
                bytes.splice(at..at, nested.bytes());
                o.hit("deep_nesting_tried");
            }
        }
    }
}

/// Replaces one value by one that appears elsewhere, keeping the file well-formed.
fn cross(rng: &mut Rng, ds: &mut Ds) {
    for _ in 0..1 + rng.below(3) {
        let filled: Vec<&'static str> = TABLES.into_iter().filter(|t| !ds.table(t).is_empty()).collect();
        let t = *rng.pick(&filled);
        let n = ds.table(t).len();
        let i = rng.below(n);
        match rng.below(7) {
            6 => {
                // counts that no file can fulfil
                let (t, f) = *rng.pick(&[("instance", "nbr_annotations"), ("scene", "nbr_samples"), ("sample_annotation", "num_lidar_pts"), ("sample_annotation", "num_radar_pts"), ("sample_data", "height"), ("sample_data", "width")]);
                let n = ds.table(t).len();
                if n > 0 {
                    let v = *rng.pick(&[0, 1 << 31, (1 << 32) - 1, 1 << 40, 1 << 53, 1 << 60, 1 << 62, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX]);
                    ds.tables.get_mut(t).unwrap()[rng.below(n)][f] = json!(v);
                }
            }
            0 => {
                let copy = ds.table(t)[i].clone();
                ds.tables.get_mut(t).unwrap().push(copy);
            }
            1 => {
                ds.tables.get_mut(t).unwrap().remove(i);
            }
            _ => {
                let f = *rng.pick(ds::required(t));
                let from = *rng.pick(&filled);
                let donor = &ds.table(from)[rng.below(ds.table(from).len())];
                let g = if rng.chance(0.6) && from == t { f } else { *rng.pick(ds::required(from)) };
                let v = match rng.below(6) {
                    0 => json!(*rng.pick(&[0.0, -1.0, 1e15, 1e18, -1e18, 9e18, 1e300, 8.2e18, -8.3e18])),
                    1 => json!([0.0, 0.0, 0.0, 0.0]),
                    2 => json!(""),
                    _ => donor[g].clone(),
                };
                ds.tables.get_mut(t).unwrap()[i][f] = v;
            }
        }
    }
}

pub fn p22(rng: &mut Rng, env: &Env, o: &mut Obs) -> Verdict {
    match rng.below(10) {
        0 | 1 => return hostile_scenario(rng, env, o),
        2 | 3 => return hostile_sensor_files(rng, env, o),
        _ => {}
    }
    if rng.below(8000) == 0 {
        return very_long_chain(rng, env, o);
    }
    let params = DsParams::small(rng);
    let mut ds = ds::consistent(rng, &params);
    let dir = env.dir("ds");
    let crossed = rng.chance(0.4);
    if crossed {
        cross(rng, &mut ds);
    }
    ds.write(&dir, rng, true);
    if !crossed || rng.chance(0.2) {
        let t = *rng.pick(&TABLES);
        let path = dir.join(VERSION).join(format!("{}.json", t));
        let mut bytes = std::fs::read(&path).expect("harness: read");
        mutate(rng, &mut bytes, &[10, 127, 129, 5000, 60000], o);
        std::fs::write(&path, &bytes).expect("harness: write");
        o.hit("mutated_table");
    } else {
        o.hit("crossed_values");
    }
    o.nontrivial = true;
    let outcome = NuScenes::load(VERSION, &dir);
    match &outcome {
        Ok(n) => {
            walk(n, o);
            o.hit("hostile_dataset_loaded");
            let _ = load_dataset(VERSION, &dir, &EvaluationTask::Detection, &FrameID::BaseLink).map(|f| f.len());
        }
        Err(e) => {
            let message = e.to_string();
            o.hit("hostile_dataset_rejected");
            // the first malformed file in any order has to be named
            let malformed: Vec<&str> = TABLES.into_iter().filter(|t| syntax_broken(&dir, t)).collect();
            if !malformed.is_empty() {
                // other tables may be malformed in other ways
                ensure!(
                    malformed.iter().any(|t| message.contains(&format!("{}.json", t)))
                        || (crossed && TABLES.iter().any(|t| message.contains(&format!("{}.json", t)))),
                    "the error does not name the malformed file {:?}: {}", malformed, message
                );
                o.hit("malformed_file_named");
            }
            o.shape(message.chars().filter(|c| !c.is_ascii_digit()).take(300).collect::<String>().split(VERSION).last().map(|s| s.to_string()));
        }
    }
    // a malformed file is not accepted
    if let Some(t) = TABLES.into_iter().find(|t| syntax_broken(&dir, t)) {
        ensure!(outcome.is_err(), "a dataset whose {}.json is no JSON loads", t);
    }
    o.sample = Some(json!({"outcome": outcome.as_ref().map(|_| "loaded").map_err(|e| e.to_string().chars().take(300).collect::<String>())}));
    Ok(())
}

/// Tens of thousands of records in one chain, loaded on a stack as threads have it by default.
fn very_long_chain(rng: &mut Rng, env: &Env, o: &mut Obs) -> Verdict {
    let n = 40_000 + rng.below(10_000);
    let ds = ds::long_chain(rng, n);
    let dir = env.dir("long");
    ds.write(&dir, rng, true);
    let (nusc, frames) = std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(scope, || {
                let nusc = NuScenes::load(VERSION, &dir).map(|n| n.sample_annotation_iter().count()).map_err(|e| e.to_string());
                let frames = load_dataset(VERSION, &dir, &EvaluationTask::Detection, &FrameID::BaseLink).map(|f| f.len()).map_err(|e| e.to_string());
                (nusc, frames)
            })
            .expect("harness: thread")
            .join()
            .map_err(|_| format!("loading a chain of {} records panics", n))
    })?;
    ensure!(nusc == Ok(n), "a dataset with a chain of {} records gives {:?}", n, nusc);
    ensure!(frames == Ok(n), "a dataset with a chain of {} samples gives {:?} frames", n, frames);
    env.dir("long");
    o.hit("very_long_chain_loaded");
    o.nontrivial = true;
    Ok(())
}

/// The file is not even JSON.
fn syntax_broken(dir: &Path, table: &str) -> bool {
    match std::fs::read(dir.join(VERSION).join(format!("{}.json", table))) {
        Ok(bytes) => serde_json::from_slice::<serde::de::IgnoredAny>(&bytes).is_err(),
        Err(_) => false,
    }
}

fn hostile_scenario(rng: &mut Rng, env: &Env, o: &mut Obs) -> Verdict {
    let dir = env.dir("scenario");
    let mut bytes = super::config::scenario_text(rng).into_bytes();
    // the YAML scanner takes quadratic time for nested lists, which is slow and not endless
    mutate(rng, &mut bytes, &[10, 127, 129, 3000], o);
    let path = dir.join("hostile.yaml");
    std::fs::write(&path, &bytes).expect("harness: write");
    let result = dir.join("result");
    let outcome = perception_eval::config::PerceptionEvaluationConfig::from(path.to_str().unwrap(), result.to_str().unwrap(), false);
    match &outcome {
        Ok(c) => {
            let _ = (format!("{:?}", c), c.clone());
            o.hit("hostile_scenario_loaded");
        }
        Err(e) => {
            let message = e.to_string();
            o.hit("hostile_scenario_rejected");
            if let perception_eval::config::ConfigError::CorruptedFile(_) = e {
                ensure!(message.contains("hostile.yaml"), "the error does not name the malformed file: {}", message);
                o.hit("malformed_file_named");
            }
            o.shape(message.split("yaml").last().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).take(200).collect::<String>());
        }
    }
    o.nontrivial = true;
    o.sample = Some(json!({"outcome": outcome.map(|_| "loaded").map_err(|e| e.to_string().chars().take(300).collect::<String>())}));
    Ok(())
}

fn hostile_sensor_files(rng: &mut Rng, env: &Env, o: &mut Obs) -> Verdict {
    let mut params = DsParams::small(rng);
    params.sensors = 2;
    let mut ds = ds::consistent(rng, &params);
    let dir = env.dir("ds");
    let count = ds.table("sample_data").len();
    for i in 0..count {
        let v = &mut ds.tables.get_mut("sample_data").unwrap()[i];
        match rng.below(8) {
            // names that do not end in a file, leave the folder or have no folder
            0 => v["filename"] = json!(*rng.pick(&["", "/", "x.bin", "..", "lidar", "lidar/..", "a/../../b", "\u{0}", "LIDAR_TOP/.", "//", "é/ü"])),
            1 => v["fileformat"] = json!(*rng.pick(&["bin", "png", "jpeg"])),
            _ => {}
        }
        let name = text(v, "filename").to_string();
        let path = dir.join(&name);
        // only below the scratch directory
        let inside = name.split('/').all(|c| c != ".." && !c.is_empty() && c != "." && !c.contains('\0')) && !name.is_empty();
        if inside && rng.chance(0.8) {
            let bytes = match rng.below(4) {
                0 => {
                    let len = rng.below(400);
                    cloud_bytes(rng, len)
                }
                1 => {
                    let len = rng.below(30) * 20;
                    cloud_bytes(rng, len)
                }
                _ => {
                    let img = image::DynamicImage::ImageRgb8(random_image(rng).to_rgb8());
                    let mut b = encode(&img, if rng.chance(0.5) { image::ImageOutputFormat::Png } else { image::ImageOutputFormat::Jpeg(80) });
                    if rng.chance(0.7) {
                        // damage the body; sizes in the header stay, they would only cost memory
                        let n = b.len();
                        if n > 60 {
                            for _ in 0..1 + rng.below(6) {
                                let at = 40 + rng.below(n - 40);
                                b[at] = rng.u64() as u8;
                            }
                        }
                        b.truncate(n.min(40 + rng.below(n)));
                    }
                    b
                }
            };
            if path.parent().map_or(false, |p| std::fs::create_dir_all(p).is_ok()) {
                let _ = std::fs::write(&path, &bytes);
            }
        }
    }
    ds.write(&dir, rng, true);
    let n = NuScenes::load(VERSION, &dir).map_err(|e| format!("loading a consistent dataset fails: {}", e))?;
    walk(&n, o);
    for d in n.sample_data_iter() {
        // errors about damaged point clouds name the file
        if format!("{:?}", d.fileformat) == "Bin" && d.load_raw().is_ok() {
            if let Err(e) = d.load() {
                let shown = e.to_string();
                let file = d.filename.to_string_lossy().to_string();
                ensure!(shown.contains(&file) || file.is_empty(), "the error about {:?} does not name the file: {}", file, shown);
                o.hit("malformed_file_named");
            }
        }
    }
    o.hit("hostile_sensor_files");
    o.nontrivial = true;
    o.shape(("sensor", count));
    Ok(())
}


//! Scenario files, names, logging. P23 to P25.

use super::data;
use crate::ds::{self, NAMES};
use crate::ensure;
use crate::gen::{self, Settings};
use crate::obs::{Env, Obs, Verdict};
use crate::oracle;
use crate::report;
use crate::rng::Rng;
use log::Level;
use perception_eval::config::{ConfigError, PerceptionEvaluationConfig};
use perception_eval::dataset::{get_current_frame, load_dataset, FrameGroundTruth};
use perception_eval::evaluation_task::{set_task, EvaluationTask};
use perception_eval::filter::filter_objects;
use perception_eval::frame_id::FrameID;
use perception_eval::label::{convert_labels, Label, LabelConverter};
use perception_eval::manager::PerceptionEvaluationManager;
use perception_eval::matching::MatchingMode;
use perception_eval::object::object3d::DynamicObject;
use perception_eval::utils::logger::configure_logger;
use serde_json::json;
use std::cell::RefCell;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::str::FromStr;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Barrier, Mutex};

// ------------------------------------------------------------------------------------------ YAML

/// A tree of a scenario file.
#[derive(Clone, Debug, PartialEq)]
pub enum Y {
    Map(Vec<(String, Y)>),
    List(Vec<Y>),
    Text(String),
    Raw(String),
}

fn t(text: &str) -> Y {
    Y::Text(text.to_string())
}

fn raw<T: ToString>(text: T) -> Y {
    Y::Raw(text.to_string())
}

impl Y {
    /// The tree with another name of a key.
    pub fn renamed(&self, from: &str, to: &str) -> Y {
        match self {
            Y::Map(entries) => Y::Map(
                entries
                    .iter()
                    .map(|(k, v)| (if k == from { to.to_string() } else { k.clone() }, v.renamed(from, to)))
                    .collect(),
            ),
            Y::List(items) => Y::List(items.iter().map(|i| i.renamed(from, to)).collect()),
            other => other.clone(),
        }
    }

    fn at(&mut self, path: &[&str]) -> &mut Y {
        match path.split_first() {
            None => self,
            Some((head, rest)) => match self {
                Y::Map(entries) => {
                    let found = entries.iter_mut().find(|(k, _)| k == head);
                    found.unwrap_or_else(|| panic!("harness: {}", head)).1.at(rest)
                }
                Y::List(items) => items[head.parse::<usize>().expect("harness: index")].at(rest),
                _ => panic!("harness: {}", head),
            },
        }
    }

    fn remove(&mut self, key: &str) {
        if let Y::Map(entries) = self {
            entries.retain(|(k, _)| k != key);
        }
    }

    fn shuffle(&mut self, rng: &mut Rng) {
        match self {
            Y::Map(entries) => {
                rng.shuffle(entries);
                entries.iter_mut().for_each(|(_, y)| y.shuffle(rng));
            }
            Y::List(items) => items.iter_mut().for_each(|y| y.shuffle(rng)),
            _ => {}
        }
    }
}

fn scalar(rng: &mut Rng, text: &str) -> String {
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '/' || c == '.';
    let reserved = ["null", "true", "false", "yes", "no", "on", "off", "nan", "inf", "y", "n"];
    let plain = text.chars().next().map_or(false, |c| c.is_ascii_alphabetic())
        && text.chars().all(word)
        && !reserved.contains(&text.to_lowercase().as_str());
    if plain && rng.chance(0.7) {
        text.to_string()
    } else if rng.chance(0.4) && text.chars().all(|c| c == ' ' || c.is_ascii_graphic()) {
        format!("'{}'", text.replace('\'', "''"))
    } else {
        json!(text).to_string()
    }
}

fn flow(rng: &mut Rng, y: &Y) -> String {
    match y {
        Y::Text(s) => json!(s).to_string(),
        Y::Raw(s) => s.clone(),
        Y::List(items) => {
            let items: Vec<String> = items.iter().map(|i| flow(rng, i)).collect();
            format!("[{}]", items.join(", "))
        }
        Y::Map(entries) => {
            let items: Vec<String> = entries.iter().map(|(k, v)| format!("{}: {}", json!(k), flow(rng, v))).collect();
            format!("{{{}}}", items.join(", "))
        }
    }
}

fn block(rng: &mut Rng, y: &Y, indent: usize, out: &mut String) {
    let pad = " ".repeat(indent);
    match y {
        Y::Map(entries) if !entries.is_empty() => {
            for (k, v) in entries {
                if rng.chance(0.06) {
                    out.push_str(&format!("{}# a comment: {{}}\n", pad));
                }
                out.push_str(&format!("{}{}:", pad, scalar(rng, k)));
                value(rng, v, indent, out);
            }
        }
        Y::List(items) if !items.is_empty() => {
            for i in items {
                match i {
                    Y::Map(_) | Y::List(_) => {
                        out.push_str(&format!("{}-\n", pad));
                        match i {
                            Y::Map(e) if e.is_empty() => out.push_str(&format!("{}  {{}}\n", pad)),
                            Y::List(e) if e.is_empty() => out.push_str(&format!("{}  []\n", pad)),
                            _ => block(rng, i, indent + 2, out),
                        }
                    }
                    Y::Text(s) => out.push_str(&format!("{}- {}\n", pad, scalar(rng, s))),
                    Y::Raw(s) => out.push_str(&format!("{}- {}\n", pad, s)),
                }
            }
        }
        other => out.push_str(&format!("{}{}\n", pad, flow(rng, other))),
    }
}

thread_local! {
    /// Values of the current file that have a name there (`&a0`).
    static ANCHORS: RefCell<Vec<Y>> = RefCell::new(Vec::new());
    /// How a file uses what YAML has beyond plain maps, lists and scalars.
    static FANCY: RefCell<f64> = RefCell::new(0.0);
}

fn value(rng: &mut Rng, y: &Y, indent: usize, out: &mut String) {
    let fancy = FANCY.with(|f| *f.borrow());
    if fancy > 0.0 {
        let known = ANCHORS.with(|a| a.borrow().iter().position(|k| k == y));
        if let Some(k) = known {
            if rng.chance(0.8) {
                out.push_str(&format!(" *a{}\n", k));
                return;
            }
        }
        if known.is_none() && rng.chance(fancy) {
            let k = ANCHORS.with(|a| {
                a.borrow_mut().push(y.clone());
                a.borrow().len() - 1
            });
            out.push_str(&format!(" &a{}", k));
        }
        match y {
            Y::Text(s) if rng.chance(fancy) && s.chars().all(|c| c == ' ' || c.is_alphanumeric() || c.is_ascii_graphic()) && s.starts_with(|c| c != ' ') && !s.ends_with(' ') => {
                let style = *rng.pick(&["|-", ">-", "|2-", ">2-"]);
                // the next line is deeper than the key by two
                out.push_str(&format!(" {}\n{}{}\n", style, " ".repeat(indent + 2), s));
                return;
            }
            Y::Text(_) if rng.chance(fancy) => out.push_str(" !!str"),
            Y::Map(_) if rng.chance(fancy / 3.0) => out.push_str(" !!map"),
            Y::List(_) if rng.chance(fancy / 3.0) => out.push_str(" !!seq"),
            _ => {}
        }
    }
    match y {
        Y::Text(s) => {
            out.push_str(&format!(" {}", scalar(rng, s)));
            if rng.chance(0.1) {
                out.push_str(" # why");
            }
            out.push('\n');
        }
        Y::Raw(s) => out.push_str(&format!(" {}\n", s)),
        Y::Map(e) if e.is_empty() || rng.chance(0.05) => out.push_str(&format!(" {}\n", flow(rng, y))),
        Y::List(e) if e.is_empty() || rng.chance(0.4) => out.push_str(&format!(" {}\n", flow(rng, y))),
        _ => {
            out.push('\n');
            block(rng, y, indent + 2, out);
        }
    }
}

pub fn render(rng: &mut Rng, y: &Y) -> String {
    let mut out = String::new();
    ANCHORS.with(|a| a.borrow_mut().clear());
    let fancy = if rng.chance(0.2) { rng.range(0.05, 0.6) } else { 0.0 };
    FANCY.with(|f| *f.borrow_mut() = fancy);
    if fancy > 0.0 && rng.chance(0.3) {
        out.push_str(rng.pick(&["%YAML 1.1\n---\n", "%YAML 1.2\n---\n", "# scenario\n\n---\n", "--- # scenario\n", "\n\n---\n"]));
    } else if rng.chance(0.1) {
        out.push_str("---\n");
    }
    if rng.chance(0.1) {
        out.push_str(&flow(rng, y));
        out.push('\n');
    } else {
        block(rng, y, 0, &mut out);
    }
    if fancy > 0.0 {
        match rng.below(4) {
            0 => out.push_str("...\n"),
            1 => out = out.trim_end_matches('\n').to_string(),
            2 => out.push_str("\n\n# end"),
            _ => {}
        }
    }
    if rng.chance(0.1) {
        out = out.replace('\n', "\r\n");
    }
    out
}

// ------------------------------------------------------------------------------------- scenarios

#[derive(Clone, Debug)]
pub struct Scenario {
    pub tree: Y,
    pub path: String,
    pub version: String,
    pub frame: FrameID,
    pub settings: Settings,
}

const FRAMES: &[(FrameID, &str, &str)] = &[
    (FrameID::BaseLink, "BaseLink", "base_link"),
    (FrameID::Map, "Map", "map"),
    (FrameID::CamBack, "CamBack", "cam_back"),
    (FrameID::CamBackLeft, "CamBackLeft", "cam_back_left"),
    (FrameID::CamBackRight, "CamBackRight", "cam_back_right"),
    (FrameID::CamFront, "CamFront", "cam_front"),
    (FrameID::CamFrontLeft, "CamFrontLeft", "cam_front_left"),
    (FrameID::CamFrontRight, "CamFrontRight", "cam_front_right"),
    (FrameID::CamTrafficLightNear, "CamTrafficLightNear", "cam_traffic_light_near"),
    (FrameID::CamTrafficLightFar, "CamTrafficLightFar", "cam_traffic_light_far"),
];

const TASKS: &[(EvaluationTask, &str, &str)] = &[
    (EvaluationTask::Detection, "Detection", "detection"),
    (EvaluationTask::Tracking, "Tracking", "tracking"),
    (EvaluationTask::Prediction, "Prediction", "prediction"),
];

/// A number that is written as it is read.
fn number(rng: &mut Rng, v: f64) -> Y {
    if v.is_infinite() {
        raw(*rng.pick(if v > 0.0 { &[".inf", ".Inf", "+.inf", ".INF"] } else { &["-.inf", "-.Inf", "-.INF", "-.inf"] }))
    } else if v.fract() == 0.0 && v.abs() < 1e9 && rng.chance(0.4) {
        match rng.below(8) {
            1 if v >= 0.0 => raw(format!("+{}", v as i64)),
            3 => raw(format!("{}.", v as i64)),
            _ => raw(v as i64),
        }
    } else if v > 0.0 && v < 1.0 && v >= 0.01 && rng.chance(0.15) {
        // without the zero in front
        raw(format!("{:?}", v).trim_start_matches('0'))
    } else if v > 0.0 && rng.chance(0.05) {
        raw(format!("+{:?}", v))
    } else if rng.chance(0.05) {
        raw(format!("{:E}", v))
    } else if rng.chance(0.1) {
        raw(format!("{:e}", v).replace('e', "e+").replace("e+-", "e-"))
    } else {
        raw(format!("{:?}", v))
    }
}

fn draw_number(rng: &mut Rng) -> f64 {
    match rng.below(6) {
        0 => rng.int(1, 200) as f64,
        1 => rng.int(1, 40) as f64 * 0.25,
        2 => rng.range(0.001, 1.0),
        3 => rng.range(100.0, 5000.0),
        _ => (rng.range(0.1, 120.0) * 1000.0).round() / 1000.0,
    }
}

fn words(rng: &mut Rng) -> String {
    let pool = ["sample", "3.0.0", "it's", "a: b", "# no comment", "{x}", "東京", "-", "true", "12", "Ünicode", "\"q\"", "*star"];
    let n = 1 + rng.below(3);
    (0..n).map(|_| *rng.pick(&pool)).collect::<Vec<_>>().join(" ")
}

/// Paths that mean what they say.
const ODD_PATHS: &[&str] = &[
    "~/data", "~", "$HOME/data", "${HOME}", "%20", "a%2Fb", "data/", "./data", "../data", "..", ".", "/", "//data", "a//b", "a/./b", "a/../b", "a b/ c",
    " data", "data ", "C:\\data", "file:///data", "data\\set", "a:b", "#data", "*", "data?", "null", "1", "1.0", "true", "dataset.yaml", ".hidden", "",
    "very/long/path/very/long/path/very/long/path/very/long/path/very/long/path/very/long/path/very/long/path/very/long/path/very/long/path/end",
];

/// What a scenario has to state.
pub struct Wish {
    pub path: String,
    pub version: String,
    pub max_x: f64,
    pub max_y: f64,
    pub min_points: Option<usize>,
    pub uuids: Option<Vec<String>>,
    pub center: f64,
    pub plane: f64,
}

/// An id as scenarios list them, some of them like nothing or like other types.
fn target_id(rng: &mut Rng) -> String {
    match rng.below(12) {
        0 | 1 => words(rng),
        2 => String::new(),
        3 => " ".repeat(1 + rng.below(3)),
        4 => rng.pick(&["null", "~", "0", "1e3", "true", "0x1f", "00123", "-", "1.0", "2024-01-01", "a\tb", "a\nb"]).to_string(),
        5 => gen::uuid(rng).repeat(1 + rng.below(60)),
        6 => format!(" {} ", gen::uuid(rng)),
        _ => gen::uuid(rng),
    }
}

/// An id like one of the list that is not in it.
fn unlisted_id(rng: &mut Rng, list: &[String]) -> String {
    let id = rng.pick(list).clone();
    let other = match rng.below(7) {
        0 => String::new(),
        1 => id.trim().to_string(),
        2 => id.to_uppercase(),
        3 => format!("{} ", id),
        4 => id.chars().take(rng.below(id.chars().count() + 1)).collect(),
        5 => format!("{}{}", id, rng.below(10)),
        _ => gen::uuid(rng),
    };
    if list.contains(&other) {
        gen::uuid(rng)
    } else {
        other
    }
}

pub fn scenario(rng: &mut Rng) -> Scenario {
    scenario_with(rng, None)
}

/// A scenario, for detection in the frame of the vehicle if something is wished.
pub fn scenario_with(rng: &mut Rng, wish: Option<&Wish>) -> Scenario {
    let n = 1 + rng.below(8);
    let mut s = Settings::wide(rng, n);
    if rng.chance(0.15) {
        // a name twice, or another name of the same label
        let l = rng.pick(&s.targets).clone();
        let at = rng.below(s.targets.len() + 1);
        s.names.insert(at, gen::label_name(rng, &l));
        s.targets.insert(at, l);
    }
    s.max_x = draw_number(rng);
    s.max_y = draw_number(rng);
    s.min_points = match rng.below(4) {
        0 => None,
        1 => Some(0),
        2 => Some(1),
        _ => Some(rng.below(2000)),
    };
    s.uuids = match rng.below(4) {
        0 => Some((0..1 + rng.below(4)).map(|_| target_id(rng)).collect()),
        1 if rng.chance(0.2) => Some(Vec::new()),
        _ => None,
    };
    s.center = draw_number(rng);
    s.plane = draw_number(rng);
    if rng.chance(0.15) {
        // limits that nothing or everything is below
        let v = *rng.pick(&[0.0, -1.0, 1e-9, 1e-300, 1e16, 1e300, f64::INFINITY]);
        match rng.below(4) {
            0 => s.max_x = v,
            1 => s.max_y = v,
            2 => s.center = v,
            _ => s.plane = v,
        }
    }
    if rng.chance(0.1) {
        s.min_points = Some(*rng.pick(&[255, 256, 65_535, 65_536, 1 << 24, (1 << 31) - 1, 1 << 32, (1 << 53) + 1, i64::MAX as usize, usize::MAX]));
    }
    s.iou2d = (rng.f() * 100.0).round() / 100.0;
    s.iou3d = (rng.f() * 1000.0).round() / 1000.0;
    if rng.chance(0.3) {
        // any number can be stated
        let v = *rng.pick(&[0.0, 1.0, -0.5, -1.0, 1.5, 50.0, 1e-9, 1.0 + 1e-12, 1e16, 1e300, f64::INFINITY, f64::NEG_INFINITY]);
        let v = if rng.chance(0.3) { rng.normal() } else { v };
        match rng.below(2) {
            0 => s.iou2d = v,
            _ => s.iou3d = v,
        }
    }
    let twice = wish.is_none() && rng.chance(0.2);
    if twice {
        (s.max_y, s.plane) = (s.max_x, s.center);
    }
    if let Some(w) = wish {
        (s.max_x, s.max_y, s.center, s.plane) = (w.max_x, w.max_y, w.center, w.plane);
        (s.min_points, s.uuids) = (w.min_points, w.uuids.clone());
    }
    let (task, camel, snake) = if wish.is_some() || rng.chance(0.8) { &TASKS[0] } else { rng.pick(TASKS) };
    s.task = task.clone();
    let task_name = *rng.pick(&[camel, snake]);
    let (frame, camel, snake) = if wish.is_some() { &FRAMES[0] } else { rng.pick(FRAMES) };
    let frame_name = *rng.pick(&[camel, snake]);

    let mut params = vec![
        ("evaluation_task".to_string(), t(task_name)),
        ("frame_id".to_string(), t(frame_name)),
        ("target_labels".to_string(), Y::List(s.names.iter().map(|n| t(n)).collect())),
        ("max_x_position".to_string(), number(rng, s.max_x)),
        ("max_y_position".to_string(), number(rng, s.max_y)),
        ("center_distance_threshold".to_string(), number(rng, s.center)),
        ("plane_distance_threshold".to_string(), number(rng, s.plane)),
        ("iou_2d_threshold".to_string(), number(rng, s.iou2d)),
        ("iou_3d_threshold".to_string(), number(rng, s.iou3d)),
    ];
    if twice {
        // written alike as well, so that the one can stand for the other
        params[4].1 = params[3].1.clone();
        params[6].1 = params[5].1.clone();
    }
    match s.min_points {
        Some(n) => params.push(("min_point_number".into(), raw(n))),
        None if rng.chance(0.5) => params.push(("min_point_number".into(), raw(*rng.pick(&["null", "~"])))),
        None => {}
    }
    match &s.uuids {
        Some(list) => params.push(("target_uuids".into(), Y::List(list.iter().map(|n| t(n)).collect()))),
        None if rng.chance(0.5) => params.push(("target_uuids".into(), raw(*rng.pick(&["null", "~"])))),
        None => {}
    }

    let path = match rng.below(3) {
        0 => rng.pick(&["tests/sample_data", "/data/set 1", "relative", "deep/er/path.d", "データ", "with.dot/a-b"]).to_string(),
        1 => rng.pick(ODD_PATHS).to_string(),
        _ => {
            let n = 1 + rng.below(5);
            let parts: Vec<&str> = (0..n).map(|_| *rng.pick(&["data", "..", ".", "~", "a b", "set%201", "$HOME", "x.yaml", "ü", "null", "1", "-"])).collect();
            format!("{}{}{}", rng.pick(&["", "", "/", "./"]), parts.join("/"), rng.pick(&["", "", "/"]))
        }
    };
    let version = match rng.below(3) {
        0 => words(rng),
        1 => rng.pick(&["", " ", "v1.0 ", " annotation", "V1.0-TRAINVAL", "../x", "a/b", "1", "1.10", "null", "~", "データ", "v1.0-mini\n"]).to_string(),
        _ => rng.pick(&["annotation", "v1.0-mini", "2.1", "latest set"]).to_string(),
    };
    let (path, version) = wish.map_or((path, version), |w| (w.path.clone(), w.version.clone()));
    let dataset = |rng: &mut Rng, version: &str| {
        Y::Map(vec![
            ("Version".into(), t(version)),
            ("VehicleId".into(), t(&words(rng))),
            ("LaunchSensing".into(), raw(*rng.pick(&["false", "true"]))),
            ("LocalMapPath".into(), t("$HOME/autoware_map/sample-map-planning")),
        ])
    };
    let mut datasets = vec![Y::Map(vec![(path.clone(), dataset(rng, &version))])];
    if rng.chance(0.15) {
        // the first one counts
        datasets.push(Y::Map(vec![("other/data".into(), dataset(rng, "other"))]));
    }
    let mut tree = Y::Map(vec![
        ("ScenarioFormatVersion".into(), t("3.0.0")),
        ("ScenarioName".into(), t(&words(rng))),
        ("ScenarioDescription".into(), t(&words(rng))),
        ("SensorModel".into(), t("sample_sensor_kit")),
        ("VehicleModel".into(), t("sample_vehicle")),
        (
            "Evaluation".into(),
            Y::Map(vec![
                ("UseCaseName".into(), t(*rng.pick(&["perception", "perception_2d", "traffic_light"]))),
                ("UseCaseFormatVersion".into(), t("0.4.0")),
                ("Datasets".into(), Y::List(datasets)),
                ("Conditions".into(), Y::Map(vec![("PassRate".into(), raw(*rng.pick(&["99.0", "100", "0.5"])))])),
                (
                    "PerceptionEvaluationConfig".into(),
                    Y::Map(vec![("evaluation_config_dict".into(), Y::Map(params))]),
                ),
            ]),
        ),
    ]);
    if rng.chance(0.6) {
        tree.shuffle(rng);
    }
    Scenario { tree, path, version, frame: frame.clone(), settings: s }
}

/// The text of a valid scenario.
pub fn scenario_text(rng: &mut Rng) -> String {
    let s = scenario(rng);
    render(rng, &s.tree)
}

// ------------------------------------------------------------------------------------------ P23

pub fn load(path: &Path, result: &Path, raw: bool) -> Result<PerceptionEvaluationConfig, ConfigError> {
    PerceptionEvaluationConfig::from(path.to_str().unwrap(), result.to_str().unwrap(), raw)
}

/// The list after a name in the debug output, if there is one of this length.
fn debug_list(debug: &str, name: &str, n: usize) -> Option<Vec<f64>> {
    let key = format!("{}: [", name);
    let at = debug.find(&key)? + key.len();
    let end = at + debug[at..].find(']')?;
    let list: Option<Vec<f64>> = debug[at..end].split(',').map(|v| v.trim().parse().ok()).collect();
    list.filter(|l| l.len() == n)
}

/// Checks a configuration against what its scenario states, by what it is and what it does.
fn judge_config(rng: &mut Rng, s: &Scenario, c: &PerceptionEvaluationConfig, result: &Path, raw: bool, o: &mut Obs) -> Verdict {
    let set = &s.settings;
    ensure!(c.dataset_path == PathBuf::from(&s.path), "the dataset path is {:?}, not {:?}", c.dataset_path, s.path);
    ensure!(c.version == s.version, "the version is {:?}, not {:?}", c.version, s.version);
    ensure!(c.evaluation_task == set.task, "the task is {:?}, not {:?}", c.evaluation_task, set.task);
    ensure!(c.frame_id == s.frame, "the frame is {:?}, not {:?}", c.frame_id, s.frame);
    ensure!(c.result_dir == result, "the result directory is {:?}, not {:?}", c.result_dir, result);
    ensure!(c.load_raw_data == raw, "load_raw_data is {}, not {}", c.load_raw_data, raw);
    ensure!(
        c.log_dir == result.join("log") && c.viz_dir == result.join("visualize"),
        "log and visualization directories of {:?} are {:?} and {:?}", result, c.log_dir, c.viz_dir
    );
    ensure!(c.log_dir.join("output.log").is_file(), "there is no log file in {:?}", c.log_dir);
    o.add("plain_value_confirmed", 8);

    // position limits, point numbers, target ids and labels, as filtering applies them
    let mut objects: Vec<DynamicObject> = Vec::new();
    for label in gen::LABELS.iter() {
        for probe in 0..9 {
            let mut x = gen::object(rng, label.clone());
            let below = |limit: f64| limit * (1.0 - 1e-9);
            let above = |limit: f64| limit * (1.0 + 1e-9);
            x.position = [below(set.max_x) * rng.range(-1.0, 1.0), below(set.max_y) * rng.range(-1.0, 1.0), 1.0];
            x.pointcloud_num = set.min_points;
            x.uuid = match &set.uuids {
                Some(l) if !l.is_empty() => Some(rng.pick(l).clone()),
                _ => Some(gen::uuid(rng)),
            };
            match probe {
                0 => x.position[0] = below(set.max_x),
                1 => x.position[0] = -above(set.max_x),
                2 => x.position[1] = -below(set.max_y),
                3 => x.position[1] = above(set.max_y),
                4 => x.pointcloud_num = set.min_points.map(|n| n.saturating_sub(1)),
                5 => x.pointcloud_num = Some(set.min_points.unwrap_or(0).saturating_add(rng.below(3))),
                6 => x.uuid = if rng.chance(0.3) { None } else { Some(gen::uuid(rng)) },
                7 => {
                    x.uuid = Some(match &set.uuids {
                        Some(l) if !l.is_empty() => unlisted_id(rng, l),
                        _ => target_id(rng),
                    })
                }
                _ => {}
            }
            objects.push(x);
        }
    }
    for is_gt in [false, true] {
        let kept = filter_objects(&objects, is_gt, &c.filter_params);
        let want: Vec<&DynamicObject> = objects.iter().filter(|x| set.keeps(x, is_gt)).collect();
        if let Some(x) = objects.iter().find(|x| set.keeps(x, is_gt) != kept.iter().any(|k| gen::same(k, x))) {
            return Err(format!(
                "under the scenario with {:?} filtering (ground truth: {}) decides otherwise than it states about {}",
                set, is_gt, gen::brief(x)
            ));
        }
        ensure!(kept.len() == want.len(), "filtering keeps {} of {} objects", kept.len(), want.len());
        o.add("filter_decision_confirmed", objects.len() as u64);
    }

    // thresholds, as printed and as applied
    let m = PerceptionEvaluationManager { config: c, frame_ground_truths: Vec::new(), frame_results: Vec::new() };
    if set.task == EvaluationTask::Detection {
        let score = m.get_metrics_score().map_err(|e| format!("no score under a detection scenario: {}", e))?;
        let sections = report::observe(&score)?;
        ensure!(sections.len() == 2, "{} sections are printed", sections.len());
        for (section, threshold) in sections.iter().zip([set.center, set.plane]) {
            let names: Vec<String> = set.targets.iter().map(|l| l.to_string()).collect();
            ensure!(section.labels == names, "the labels of the scenario are {:?}, printed are {:?}", names, section.labels);
            ensure!(
                section.thresholds.iter().all(|x| *x == threshold || (x - threshold).abs() <= 0.00051),
                "the {} threshold of the scenario is {}, printed are {:?}", section.mode, threshold, section.thresholds
            );
            o.add("printed_threshold_confirmed", names.len() as u64);
        }
        if set.uuids.as_ref().map_or(true, |l| !l.is_empty()) {
            apply_thresholds(rng, set, c, o)?;
        }
    } else {
        ensure!(m.get_metrics_score().is_err(), "a score for task {}", set.task);
        o.hit("other_task_confirmed");
    }
    // IoU thresholds are only shown
    let debug = format!("{:?}", c.metrics_params);
    for (name, want) in [("iou2d_thresholds", set.iou2d), ("iou3d_thresholds", set.iou3d)] {
        if let Some(list) = debug_list(&debug, name, set.targets.len()) {
            ensure!(list.iter().all(|x| *x == want), "{} are {:?}, the scenario states {}", name, list, want);
            o.hit("iou_threshold_confirmed");
        }
    }
    Ok(())
}

/// Scores of one pair for each target label, right below and right above the thresholds.
fn apply_thresholds(rng: &mut Rng, set: &Settings, c: &PerceptionEvaluationConfig, o: &mut Obs) -> Verdict {
    let mut labels = set.targets.clone();
    labels.dedup();
    if !(set.max_x.is_finite() && set.max_y.is_finite() && set.center.is_finite() && set.plane.is_finite()) {
        return Ok(());
    }
    for (k, label) in labels.iter().enumerate() {
        if labels[..k].contains(label) {
            continue;
        }
        for _ in 0..2 {
            let mut gt = gen::object(rng, label.clone());
            gt.position = [set.max_x * rng.range(0.3, 0.6), set.max_y * rng.range(-0.3, 0.3), 0.0];
            gt.orientation = gen::upright(rng);
            gt.pointcloud_num = Some(set.min_points.unwrap_or(0));
            gt.uuid = Some(set.uuids.as_ref().map_or("x".into(), |l| rng.pick(l).clone()));
            let mut est = gt.clone();
            let by = *rng.pick(&[1.0 - 1e-6, 1.0 + 1e-6]);
            match rng.below(3) {
                // above each other, or further away, or stretched
                0 => est.position[2] += by * set.center,
                1 => {
                    let r = (gt.position[0].powi(2) + gt.position[1].powi(2)).sqrt();
                    let f = 1.0 + by * *rng.pick(&[set.center, set.plane]) / r;
                    est.position = [gt.position[0] * f, gt.position[1] * f, 0.0];
                }
                _ => est.position[0] += by * *rng.pick(&[set.center, set.plane]),
            }
            if !set.keeps(&est, false) || !set.keeps(&gt, true) {
                continue;
            }
            let mut m = PerceptionEvaluationManager { config: c, frame_ground_truths: Vec::new(), frame_results: Vec::new() };
            let frame = FrameGroundTruth { timestamp: gt.timestamp, objects: vec![gt.clone()] };
            m.add_frame_result(&[est.clone()], &frame).map_err(|e| format!("adding a frame fails: {:?}", e))?;
            let score = m.get_metrics_score().map_err(|e| format!("no score under a detection scenario: {}", e))?;
            let sections = report::observe(&score)?;
            for (section, mode, threshold) in
                [(&sections[0], MatchingMode::CenterDistance, set.center), (&sections[1], MatchingMode::PlaneDistance, set.plane)]
            {
                if let Some(hit) = oracle::beats(&mode, &est, Some(&gt), threshold) {
                    for (l, ap) in section.labels.iter().zip(&section.ap) {
                        if *l == label.to_string() {
                            ensure!(
                                report::close(*ap, if hit { 1.0 } else { 0.0 }, section.tol),
                                "under the scenario with {:?} the {:?} AP of {} and {} is {}", set, mode, gen::brief(&est), gen::brief(&gt), ap
                            );
                            o.hit("applied_threshold_confirmed");
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Text,
    Float,
    Count,
    Flag,
    List,
    Map,
}

const VALUES: &[(&[&str], Kind)] = &[
    (&["ScenarioFormatVersion"], Kind::Text),
    (&["ScenarioName"], Kind::Text),
    (&["ScenarioDescription"], Kind::Text),
    (&["SensorModel"], Kind::Text),
    (&["VehicleModel"], Kind::Text),
    (&["Evaluation"], Kind::Map),
    (&["Evaluation", "UseCaseName"], Kind::Text),
    (&["Evaluation", "UseCaseFormatVersion"], Kind::Text),
    (&["Evaluation", "Datasets"], Kind::List),
    (&["Evaluation", "Datasets", "0", "*", "Version"], Kind::Text),
    (&["Evaluation", "Datasets", "0", "*", "VehicleId"], Kind::Text),
    (&["Evaluation", "Datasets", "0", "*", "LaunchSensing"], Kind::Flag),
    (&["Evaluation", "Datasets", "0", "*", "LocalMapPath"], Kind::Text),
    (&["Evaluation", "Conditions"], Kind::Map),
    (&["Evaluation", "Conditions", "PassRate"], Kind::Float),
    (&["Evaluation", "PerceptionEvaluationConfig"], Kind::Map),
    (&["Evaluation", "PerceptionEvaluationConfig", "evaluation_config_dict"], Kind::Map),
    (&["Evaluation", "PerceptionEvaluationConfig", "evaluation_config_dict", "evaluation_task"], Kind::Text),
    (&["Evaluation", "PerceptionEvaluationConfig", "evaluation_config_dict", "frame_id"], Kind::Text),
    (&["Evaluation", "PerceptionEvaluationConfig", "evaluation_config_dict", "target_labels"], Kind::List),
    (&["Evaluation", "PerceptionEvaluationConfig", "evaluation_config_dict", "max_x_position"], Kind::Float),
    (&["Evaluation", "PerceptionEvaluationConfig", "evaluation_config_dict", "max_y_position"], Kind::Float),
    (&["Evaluation", "PerceptionEvaluationConfig", "evaluation_config_dict", "min_point_number"], Kind::Count),
    (&["Evaluation", "PerceptionEvaluationConfig", "evaluation_config_dict", "target_uuids"], Kind::List),
    (&["Evaluation", "PerceptionEvaluationConfig", "evaluation_config_dict", "center_distance_threshold"], Kind::Float),
    (&["Evaluation", "PerceptionEvaluationConfig", "evaluation_config_dict", "plane_distance_threshold"], Kind::Float),
    (&["Evaluation", "PerceptionEvaluationConfig", "evaluation_config_dict", "iou_2d_threshold"], Kind::Float),
    (&["Evaluation", "PerceptionEvaluationConfig", "evaluation_config_dict", "iou_3d_threshold"], Kind::Float),
];

fn ill_typed(rng: &mut Rng, kind: Kind) -> Y {
    let pool: &[&str] = match kind {
        Kind::Text => &["[a, b]", "{a: 1}"],
        Kind::Float => &["fast", "[1.0]", "{a: 1.0}", "\"1.0 m\"", "true"],
        Kind::Count => &["-1", "1.5", "many", "[1]", "{a: 1}", "true", "1e3", "-9999999999999999999"],
        Kind::Flag => &["maybe", "3", "[true]", "\"\""],
        Kind::List => &["car", "{a: b}", "3", "true", "[[a], b]", "[{a: 1}]"],
        Kind::Map => &["word", "[]", "3", "[1, 2]", "{}"],
    };
    raw(*rng.pick(pool))
}

/// Breaks one thing in the scenario; what was broken.
fn break_scenario(rng: &mut Rng, s: &Scenario, tree: &mut Y) -> (&'static str, String) {
    let (path, kind) = rng.pick(VALUES);
    let path: Vec<&str> = path.iter().map(|p| if *p == "*" { s.path.as_str() } else { *p }).collect();
    let (last, parent) = path.split_last().unwrap();
    let shown = path.join(".");
    match rng.below(8) {
        0..=2 if !["min_point_number", "target_uuids"].contains(last) => {
            tree.at(parent).remove(last);
            ("missing_value", shown)
        }
        3 => {
            let pick = rng.below(4);
            let (path, bad): (&[&str], &[&str]) = match pick {
                0 => (
                    &["Evaluation", "PerceptionEvaluationConfig", "evaluation_config_dict", "evaluation_task"],
                    &["DETECTION", "segmentation", "detections", "Detection2D", "", "detection2d", "track", "sensing"],
                ),
                1 => (
                    &["Evaluation", "PerceptionEvaluationConfig", "evaluation_config_dict", "frame_id"],
                    &["baselink", "Base_Link", "lidar_top", "", "BASE_LINK", "cam_rear", "velodyne", "CAM_FRONT"],
                ),
                2 => (&["Evaluation", "UseCaseName"], &["planning", "Perception", "", "perception_3d", "localization"]),
                _ if rng.chance(0.3) => {
                    // which one is meant?
                    let first = tree.at(&["Evaluation", "Datasets", "0"]);
                    if let Y::Map(entries) = first {
                        let mut other = entries[0].clone();
                        other.0 += *rng.pick(&["2", "/more", "_b"]);
                        let at = rng.below(2);
                        entries.insert(at, other);
                    }
                    return ("ambiguous_value", "two datasets in one entry".into());
                }
                _ => {
                    let list: &[&str] = &["[]", "null", "[{}]", "[null]"];
                    let bad = *rng.pick(list);
                    *tree.at(&["Evaluation", "Datasets"]) = raw(bad);
                    return ("missing_value", format!("Datasets: {}", bad));
                }
            };
            let bad = *rng.pick(bad);
            *tree.at(path) = t(bad);
            ("unknown_value", format!("{}: {:?}", path.join("."), bad))
        }
        _ => {
            let bad = ill_typed(rng, *kind);
            let shown = format!("{}: {:?}", shown, bad);
            if let Y::Map(entries) = tree.at(parent) {
                entries.retain(|(k, _)| k != last);
                entries.push((last.to_string(), bad));
            } else {
                panic!("harness: {}", shown);
            }
            ("ill_typed_value", shown)
        }
    }
}

pub fn p23(rng: &mut Rng, env: &Env, o: &mut Obs) -> Verdict {
    let dir = env.dir("p23");
    let raw = rng.chance(0.5);
    // several scenarios, then all of them are judged
    let n = 1 + rng.below(3);
    let mut loaded = Vec::new();
    for i in 0..n {
        let s = scenario(rng);
        let file = dir.join(format!("scenario {}.yaml", i));
        let text = render(rng, &s.tree);
        std::fs::write(&file, &text).expect("harness: write");
        // a fresh directory, one that exists, or one that was used before
        let result = match rng.below(4) {
            0 if i > 0 => dir.join("result0"),
            1 => {
                let d = dir.join(format!("deep/er/result{}", i));
                std::fs::create_dir_all(d.join("log")).expect("harness: mkdir");
                d
            }
            _ => dir.join(format!("result{}", i)),
        };
        let c = load(&file, &result, raw).map_err(|e| format!("a valid scenario is rejected: {}\n{}", e, text))?;
        if text.contains(" *a") {
            o.hit("scenario_with_aliases");
        }
        if [" |-", " >-", " |2-", " >2-", " !!"].iter().any(|k| text.contains(k)) {
            o.hit("scenario_with_styles");
        }
        loaded.push((s, file, result, c, text));
        o.hit("scenario_loaded");
    }
    for (s, file, result, c, text) in &loaded {
        judge_config(rng, s, c, result, raw, o).map_err(|e| format!("{}\n{}", e, text))?;
        if rng.chance(0.3) {
            // once more
            let again = load(file, result, !raw).map_err(|e| format!("a scenario loads only once: {}\n{}", e, text))?;
            judge_config(rng, s, &again, result, !raw, o).map_err(|e| format!("loaded again: {}\n{}", e, text))?;
            o.hit("scenario_loaded_again");
        }
        o.shape((s.settings.targets.len(), s.settings.min_points.is_some(), s.settings.uuids.is_some(), s.path.clone(), s.version.clone(), s.frame.to_string(), s.settings.task.to_string()));
    }
    o.sample = Some(json!({"scenario": loaded[0].4}));

    for _ in 0..4 {
        let s = scenario(rng);
        let mut tree = s.tree.clone();
        let (kind, what) = break_scenario(rng, &s, &mut tree);
        let text = render(rng, &tree);
        let file = dir.join("broken.yaml");
        std::fs::write(&file, &text).expect("harness: write");
        if load(&file, &dir.join("broken"), raw).is_ok() {
            return Err(format!("a scenario with {} ({}) loads:\n{}", kind, what, text));
        }
        o.hit(match kind {
            "missing_value" => "rejected_missing_value",
            "unknown_value" => "rejected_unknown_value",
            "ambiguous_value" => "rejected_ambiguous_value",
            _ => "rejected_ill_typed_value",
        });
        o.shape((kind, what));
    }
    // files that are no scenario at all
    let file = dir.join("none.yaml");
    let what = rng.below(7);
    match what {
        0 => {}
        1 => std::fs::create_dir(&file).expect("harness: mkdir"),
        2 => std::fs::write(&file, "").expect("harness: write"),
        3 => std::fs::write(&file, b"\xff\xfe\x00S: [").expect("harness: write"),
        4 => std::fs::write(&file, "Evaluation: {").expect("harness: write"),
        5 => std::fs::write(&file, format!("- {}", words(rng))).expect("harness: write"),
        _ => {
            // a list that does not end
            let text = format!("{{[{}", scenario_text(rng));
            std::fs::write(&file, text).expect("harness: write");
        }
    }
    ensure!(load(&file, &dir.join("none"), raw).is_err(), "a file that is no scenario ({}) loads", what);
    o.hit(if what == 0 { "rejected_missing_file" } else { "rejected_malformed_file" });
    // a result directory that cannot be created
    if rng.chance(0.3) {
        let plain = dir.join("plain");
        std::fs::write(&plain, "x").expect("harness: write");
        ensure!(load(&loaded[0].1, &plain, raw).is_err(), "a result directory that is a file is accepted");
        o.hit("rejected_result_directory");
    }
    o.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------------------------------ P24

fn any_case(rng: &mut Rng, name: &str) -> String {
    match rng.below(4) {
        0 => name.to_string(),
        1 => name.to_uppercase(),
        _ => name.chars().map(|c| if rng.chance(0.5) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

/// Letters that look like those of the names, none of which becomes one of theirs in lower case.
const LOOKALIKES: &[(char, &[char])] = &[
    ('a', &['á', 'ä', 'à', 'â', 'å', 'ã', 'ā', 'а', 'α', 'ａ', 'Ä', 'Á']),
    ('b', &['ь', 'ƀ', 'ｂ']),
    ('c', &['ç', 'с', 'ć', 'č', 'ｃ']),
    ('d', &['ď', 'ḍ', 'ｄ']),
    ('e', &['é', 'è', 'ë', 'ê', 'е', 'ε', 'ｅ', 'É']),
    ('g', &['ğ', 'ɡ', 'ｇ']),
    ('i', &['í', 'ì', 'ï', 'î', 'ı', 'і', 'İ', 'l', '1', 'ｉ']),
    ('l', &['ł', '1', 'I', 'ｌ']),
    ('m', &['м', 'ｍ', 'n']),
    ('n', &['ñ', 'ń', 'ｎ']),
    ('o', &['ö', 'ó', 'ò', 'ô', 'ø', 'о', 'ο', '0', 'Ö', 'ｏ']),
    ('p', &['р', 'ρ', 'ｐ']),
    ('r', &['г', 'ř', 'ｒ']),
    ('s', &['ş', 'ß', 'ś', 'ѕ', 'ｓ', '$']),
    ('t', &['т', 'ţ', 'ｔ']),
    ('u', &['ü', 'ú', 'ù', 'û', 'µ', 'υ', 'Ü', 'ｕ']),
    ('v', &['ν', 'ѵ', 'ｖ', 'w']),
    ('y', &['ý', 'ÿ', 'у', 'ｙ']),
    ('_', &['-', ' ', '＿', '\u{a0}', '.']),
    ('.', &['·', '．', '。', '_', '/', ',']),
];

/// Text near a name.
fn distort(rng: &mut Rng, name: &str) -> String {
    let mut c: Vec<char> = name.chars().collect();
    if rng.chance(0.25) && !c.is_empty() {
        // the same to the eye
        for _ in 0..1 + rng.below(2) {
            let i = rng.below(c.len());
            let low = c[i].to_ascii_lowercase();
            if let Some((_, list)) = LOOKALIKES.iter().find(|(l, _)| *l == low) {
                c[i] = *rng.pick(list);
            } else if rng.chance(0.2) {
                c.insert(i, *rng.pick(&['\u{200b}', '\u{ad}', '\u{feff}', '\u{301}', '\u{200d}']));
            }
        }
        return c.into_iter().collect();
    }
    for _ in 0..1 + rng.below(2) {
        let n = c.len();
        match rng.below(9) {
            0 if n > 0 => {
                c.remove(rng.below(n));
            }
            1 => c.insert(rng.below(n + 1), *rng.pick(&['s', '_', '.', ' ', 'é', '車', '\t', '\n', '\0', 'x', '-', '0'])),
            2 if n > 1 => {
                let i = rng.below(n - 1);
                c.swap(i, i + 1);
            }
            3 if n > 0 => {
                let i = rng.below(n);
                c[i] = *rng.pick(&['a', 'z', '.', '_', ' ', '/']);
            }
            4 => c.truncate(rng.below(n + 1)),
            5 => c.push(*rng.pick(&[' ', '\n', '.', 's'])),
            6 => c.insert(0, *rng.pick(&[' ', '.', 'x'])),
            7 => {
                let s: String = c.iter().collect();
                c = s.replace('.', "_").chars().collect();
            }
            _ => {
                let s: String = c.iter().collect();
                c = s.replace('_', "").chars().collect();
            }
        }
    }
    c.into_iter().collect()
}

pub fn p24(rng: &mut Rng, _env: &Env, o: &mut Obs) -> Verdict {
    let converter = LabelConverter::new("autoware").map_err(|e| format!("the autoware naming scheme is rejected: {}", e))?;
    let mut names: Vec<String> = Vec::new();
    // every name of the scheme, in some letter case
    for (name, label) in NAMES {
        let name = any_case(rng, name);
        let got = converter.convert(&name);
        ensure!(got == *label, "{:?} converts to {}, not {}", name, got, label);
        o.hit("name_confirmed");
        names.push(name);
    }
    for label in gen::LABELS.iter() {
        let shown = label.to_string();
        ensure!(converter.convert(&shown) == *label, "{:?} of {:?} converts to {}", shown, label, converter.convert(&shown));
        let got = converter.convert(&any_case(rng, &shown));
        ensure!(got == *label, "{} in another letter case converts to {}", shown, got);
        ensure!(gen::LABELS.iter().filter(|l| l.to_string() == shown).count() == 1, "two labels print {}", shown);
        o.hit("label_round_trip");
    }
    for _ in 0..60 {
        let text = match rng.below(5) {
            4 if rng.chance(0.3) => {
                // longer than any buffer or column would be, with characters of several bytes at any place
                let most = if rng.chance(0.02) { 20_000 } else { 90 };
                let times = 1 + rng.below(most);
                let part = *rng.pick(&["car", "車", "é", "unknown.", "🚗a", "x"]);
                format!("{}{}", "a".repeat(rng.below(9)), part.repeat(times))
            }
            0 => {
                let name = any_case(rng, rng.clone().pick(NAMES).0);
                distort(rng, &name)
            }
            1 => (0..rng.below(12)).map(|_| *rng.pick(&['a', 'r', 'c', '.', '_', ' ', 'V', '0', 'ß', '車', '&'])).collect(),
            2 => format!("{}{}", rng.pick(&["vehicle.", "human.pedestrian.", "static_object.", "pedestrian.", "movable_object.", "human."]),
                         rng.pick(&["car", "bus", "adult", "bicycle", "animal", "motorbike", "truck", "unknown", "debris", "barrier", "x", ""])),
            _ => {
                let name = *rng.pick(&["car ", " car", "CAR\n", "", "vehicle", "pedestrian.", "human", "motorcycle", "cyclist", "van", "person", "unknown.car"]);
                name.to_string()
            }
        };
        let want = ds::label_of(&text);
        let got = converter.convert(&text);
        ensure!(got == want, "{:?} converts to {}, not {}", text, got, want);
        o.hit(if want == Label::Unknown { "other_text_unknown" } else { "name_confirmed" });
        o.shape(text.clone());
        names.push(text);
    }
    // element by element, in order
    rng.shuffle(&mut names);
    names.truncate(rng.below(names.len()));
    let list: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let got = convert_labels(&list, &converter).map_err(|e| format!("a list of names is rejected: {}", e))?;
    let want: Vec<Label> = list.iter().map(|n| ds::label_of(n)).collect();
    ensure!(got == want, "the list {:?} converts to {:?}, not {:?}", list, got, want);
    o.hit("list_confirmed");

    // frames and tasks
    for (id, camel, snake) in FRAMES {
        for name in [camel, snake] {
            ensure!(FrameID::from_str(name).ok().as_ref() == Some(id), "the frame name {:?} gives {:?}", name, FrameID::from_str(name));
        }
        ensure!(FrameID::from_str(&id.to_string()).ok().as_ref() == Some(id), "{:?} prints {} that converts to something else", id, id);
        ensure!(FRAMES.iter().filter(|(f, _, _)| f == id).count() == 1, "frame {} equals another one", id);
        o.hit("frame_round_trip");
    }
    for (task, camel, snake) in TASKS {
        for name in [camel, snake] {
            ensure!(EvaluationTask::from_str(name).ok().as_ref() == Some(task), "the task name {:?} gives {:?}", name, EvaluationTask::from_str(name));
            ensure!(set_task(name).ok().as_ref() == Some(task), "the task name {:?} gives {:?}", name, set_task(name));
        }
        ensure!(set_task(&task.to_string()).ok().as_ref() == Some(task), "{:?} prints {} that converts to something else", task, task);
        ensure!(task.is_3d() && !task.is_2d() && task.as_ref() == task, "{} does not count as a 3D task", task);
        ensure!(TASKS.iter().filter(|(f, _, _)| f == task).count() == 1, "task {} equals another one", task);
        o.hit("task_round_trip");
    }
    for _ in 0..60 {
        let (_, camel, snake) = rng.pick(FRAMES);
        let (_, tc, ts) = rng.pick(TASKS);
        let base = *rng.pick(&[camel, snake, tc, ts]);
        let text = match rng.below(5) {
            4 => base.repeat(1 + rng.below(60)),
            0 => any_case(rng, base),
            1 => format!("{}{}", base, rng.pick(&["_", "s", " ", "2D", "\n", "_left", "_far"])),
            _ => distort(rng, base),
        };
        let frame = FRAMES.iter().find(|(_, c, s)| *c == text || *s == text).map(|f| f.0.clone());
        ensure!(FrameID::from_str(&text).ok() == frame, "the text {:?} gives the frame {:?}", text, FrameID::from_str(&text));
        let task = TASKS.iter().find(|(_, c, s)| *c == text || *s == text).map(|f| f.0.clone());
        ensure!(EvaluationTask::from_str(&text).ok() == task, "the text {:?} gives the task {:?}", text, EvaluationTask::from_str(&text));
        ensure!(set_task(&text).ok() == task, "the text {:?} gives the task {:?}", text, set_task(&text));
        o.hit(if frame.is_none() && task.is_none() { "other_name_rejected" } else { "name_accepted" });
        o.shape(text);
    }
    // naming schemes
    for _ in 0..6 {
        let scheme = match rng.below(4) {
            0 => distort(rng, "autoware"),
            3 => rng.pick(&["Autoware", "AUTOWARE", "autoWare", " autoware", "autoware ", "autoware\n", "autoware\0", "Tier4", "t4dataset"]).to_string(),
            1 => rng.pick(&["nuscenes", "traffic_light", "", "waymo", "kitti", "autoware_", "auto", "blinker"]).to_string(),
            _ => words(rng),
        };
        if scheme != "autoware" {
            ensure!(LabelConverter::new(&scheme).is_err(), "the naming scheme {:?} is accepted", scheme);
            o.hit("scheme_rejected");
        }
    }
    o.nontrivial = true;
    o.sample = Some(json!({"list": list, "labels": got.iter().map(|l| l.to_string()).collect::<Vec<_>>()}));
    Ok(())
}

// ------------------------------------------------------------------------------------------ P25

const LEVELS: [Level; 5] = [Level::Error, Level::Warn, Level::Info, Level::Debug, Level::Trace];

/// A message that some thread issued.
struct Issued {
    thread: usize,
    number: usize,
    level: Level,
    text: String,
    /// Places (directory, level) that were in force at some moment while it was issued.
    places: Vec<(usize, Level)>,
}

fn message(rng: &mut Rng, tag: &str, thread: usize, number: usize, long: f64) -> String {
    let pool = ["", " ", "plain", "{l} - {m}", "{}", "%d", "tab\there", "ünïcode 東京", "WARN - x", "\"quoted\"", "\\n", "a - b", "\u{1b}[31m", "trailing  "];
    let mut text = format!("{} {}.{} ", tag, thread, number);
    for _ in 0..rng.below(4) {
        text.push_str(*rng.pick(&pool));
    }
    if rng.chance(long) {
        text.push_str(&"long ".repeat(100 + rng.below(2000)));
    }
    text
}

/// Where messages come from: modules of the library, those it uses, others.
const TARGETS: [&str; 48] = [
    "perception_eval", "perception_eval::config", "perception_eval::dataset", "perception_eval::dataset::nuscenes", "perception_eval::filter",
    "perception_eval::label", "perception_eval::manager", "perception_eval::matching", "perception_eval::metrics::score",
    "perception_eval::result::object", "perception_eval::utils::logger", "log4rs", "log", "serde_yaml", "logfile", "",
    // other libraries and programs
    "hyper", "hyper::client", "tokio", "tokio::runtime", "tokio_util::codec", "mio::poll", "reqwest::connect", "rustls::client", "h2", "want",
    "rayon", "rayon_core", "image", "image::png", "png", "nalgebra", "geo", "indicatif", "chrono", "serde_json", "serde", "hex", "safe_transmute",
    "wgpu", "wgpu_core::device", "winit", "rclrs", "r2r", "main", "app", "test", "std",
];

fn issue(rng: &mut Rng, level: Level, text: &str) {
    match rng.below(4) {
        0 => log::log!(level, "{}", text),
        1 => log::log!(target: *rng.pick(&TARGETS), level, "{}", text),
        2 => log::log!(target: "other::target", level, "{}", text),
        _ => match level {
            Level::Error => log::error!("{}", text),
            Level::Warn => log::warn!("{}", text),
            Level::Info => log::info!("{}", text),
            Level::Debug => log::debug!("{}", text),
            Level::Trace => log::trace!("{}", text),
        },
    }
}

/// Key of the finding that a long message is torn when logging is set up again for the same file
/// while it is being written.
const TORN: &str = "[torn-long-message]";

/// Sets logging up again for the same file while long messages are written. Every byte has to be
/// in the file, and every message has to be one line.
fn same_file_again(rng: &mut Rng, dir: &Path, tag: &str, o: &mut Obs) -> Verdict {
    configure_logger(dir, Level::Info).map_err(|e| format!("logging to {:?} cannot be set up: {}", dir, e))?;
    let writers = 4;
    let seeds: Vec<u64> = (0..writers).map(|_| rng.u64()).collect();
    let barrier = Barrier::new(writers + 1);
    let mut want: Vec<String> = std::thread::scope(|scope| -> Result<Vec<String>, String> {
        let handles: Vec<_> = (0..writers)
            .map(|w| {
                let barrier = &barrier;
                let mut r = Rng::new(seeds[w], "P25", w as u64);
                scope.spawn(move || {
                    barrier.wait();
                    (0..40)
                        .map(|i| {
                            let text = message(&mut r, tag, w, i, 0.7);
                            log::info!("{}", text);
                            format!("INFO - {}", text)
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        barrier.wait();
        let mut outcome = Ok(());
        for _ in 0..10 {
            outcome = outcome.and(configure_logger(dir, Level::Info).map_err(|e| format!("logging cannot be set up again: {}", e)));
            std::thread::sleep(std::time::Duration::from_micros(100));
        }
        let lists: Vec<Vec<String>> = handles.into_iter().map(|h| h.join().unwrap()).collect();
        outcome.map(|_| lists.into_iter().flatten().collect())
    })?;
    let bytes = std::fs::read(dir.join("output.log")).map_err(|e| format!("no log file: {}", e))?;
    let length: usize = want.iter().map(|l| l.len() + 1).sum();
    ensure!(bytes.len() == length, "{} bytes are logged, the messages have {}", bytes.len(), length);
    let text = String::from_utf8_lossy(&bytes);
    let mut got: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    got.sort();
    want.sort();
    if got != want {
        let torn = want.iter().filter(|l| got.binary_search(l).is_err());
        ensure!(torn.clone().any(|l| l.len() > 900), "a short message is lost: {:?}", torn.clone().next());
        return Err(format!("{} {} of {} messages are not one line", TORN, torn.count(), want.len()));
    }
    o.hit("set_up_again_for_same_file");
    Ok(())
}

/// Messages that repeat, say nothing, come in floods or have odd lengths: the file has to be exactly them.
fn indistinct_messages(rng: &mut Rng, root: &Path, o: &mut Obs) -> Verdict {
    let dir = root.join("indistinct");
    // the file may be there already, and large
    let mut earlier = String::new();
    if rng.chance(0.5) {
        let line = format!("INFO - {}\n", "earlier ".repeat(1 + rng.below(30)));
        let size = *rng.pick(&[1, 100, 4_096, 65_536, 1 << 20, (1 << 20) + 1, 3 << 20, 11 << 20]);
        earlier = line.repeat(size / line.len() + 1);
        data::write_file(&dir.join("output.log"), earlier.as_bytes());
        o.hit("log_file_was_there");
    }
    let limit = *rng.pick(&LEVELS);
    configure_logger(&dir, limit).map_err(|e| format!("logging to {:?} cannot be set up: {}", dir, e))?;
    let writers = if rng.chance(0.5) { 1 } else { 2 + rng.below(3) };
    let pool: Vec<String> = (0..1 + rng.below(4))
        .map(|_| match rng.below(7) {
            0 => String::new(),
            1 => " ".repeat(1 + rng.below(3)),
            2 => "x".repeat(1 + rng.below(3)),
            // around the sizes of buffers
            3 => "y".repeat(*rng.pick(&[255, 256, 257, 1014, 1015, 1016, 1017, 1018, 1023, 1024, 1025, 4095, 4096, 8192, 70_000])),
            4 => "é東".repeat(1 + rng.below(400)),
            _ => message(rng, "same", 0, 0, 0.0),
        })
        .collect();
    let count = if rng.chance(0.1) { 1500 } else { 1 + rng.below(60) };
    let long = pool.iter().map(|t| t.len()).max().unwrap_or(0);
    let count = if long > 2000 { count.min(60) } else { count };
    let seeds: Vec<u64> = (0..writers).map(|_| rng.u64()).collect();
    let lists: Vec<Vec<String>> = std::thread::scope(|scope| {
        let handles: Vec<_> = (0..writers)
            .map(|w| {
                let pool = &pool;
                let mut r = Rng::new(seeds[w], "P25", w as u64);
                scope.spawn(move || {
                    let mut lines = Vec::new();
                    for _ in 0..count {
                        let level = *r.pick(&LEVELS);
                        let text = r.pick(pool).clone();
                        issue(&mut r, level, &text);
                        if level <= limit {
                            lines.push(format!("{} - {}\n", level, text));
                        }
                    }
                    lines
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let text = std::fs::read_to_string(dir.join("output.log")).map_err(|e| format!("no log file: {}", e))?;
    ensure!(text.starts_with(&earlier), "the log file had {} bytes before; they are changed, it has {} now", earlier.len(), text.len());
    let text = &text[earlier.len()..];
    let entries = std::fs::read_dir(&dir).map(|d| d.count()).unwrap_or(0);
    ensure!(entries == 1, "there are {} files beside the log file", entries.saturating_sub(1));
    let mut want: Vec<&str> = lists.iter().flatten().map(|l| l.as_str()).collect();
    let mut got: Vec<&str> = text.split_inclusive('\n').collect();
    if writers > 1 {
        want.sort();
        got.sort();
    }
    if want != got {
        let at = want.iter().zip(&got).position(|(w, g)| w != g).unwrap_or(want.len().min(got.len()));
        return Err(format!(
            "{} messages of {} threads at or above {} give {} lines; the first difference is at {}: {:?}, not {:?}",
            want.len(), writers, limit, got.len(), at, got.get(at).map(|l| &l[..l.len().min(80)]), want.get(at).map(|l| l.len())
        ));
    }
    o.add("indistinct_message_confirmed", want.len() as u64);
    Ok(())
}

static CASES: AtomicU64 = AtomicU64::new(0);

/// One worker only: the logger belongs to the process.
pub fn p25(rng: &mut Rng, env: &Env, o: &mut Obs) -> Verdict {
    let root = env.dir("p25");
    let tag = format!("#{}", CASES.fetch_add(1, Ordering::Relaxed));
    let dirs: Vec<PathBuf> = vec![root.join("a"), root.join("b/deep/er"), root.join("c d")];
    let plain = root.join("plain");
    std::fs::write(&plain, "x").expect("harness: write");
    let scenario_file = root.join("scenario.yaml");
    let text = {
        let s = scenario(rng);
        render(rng, &s.tree)
    };
    std::fs::write(&scenario_file, text).expect("harness: write");
    // the fourth directory is that of a scenario
    let mut files: Vec<PathBuf> = dirs.iter().map(|d| d.join("output.log")).collect();
    files.push(root.join("result/log/output.log"));
    let setup = |place: (usize, Level)| -> Result<(), String> {
        if place.0 < dirs.len() {
            configure_logger(&dirs[place.0], place.1).map_err(|e| format!("logging to {:?} cannot be set up: {}", dirs[place.0], e))
        } else {
            load(&scenario_file, &root.join("result"), false).map(|_| ()).map_err(|e| format!("a valid scenario is rejected: {}", e))
        }
    };
    let draw = |rng: &mut Rng| -> (usize, Level) {
        let d = rng.below(4);
        (d, if d == 3 { Level::Debug } else { *rng.pick(&LEVELS) })
    };

    if rng.chance(0.05) {
        o.nontrivial = true;
        return same_file_again(rng, &root.join("again"), &tag, o);
    }
    if rng.chance(0.1) {
        o.nontrivial = true;
        return indistinct_messages(rng, &root, o);
    }
    // a dataset that is loaded while others log
    let data = root.join("data");
    let loading = rng.chance(0.3);
    if loading {
        let params = ds::DsParams::small(rng);
        ds::consistent(rng, &params).write(&data, rng, true);
    }
    let mut place = draw(rng);
    setup(place)?;
    let mut used = vec![false; 4];
    used[place.0] = true;
    let mut issued: Vec<Issued> = Vec::new();
    let mut numbers = vec![0usize; 8];
    let steps = 2 + rng.below(6);
    let mut history = vec![format!("{:?}", place)];
    for _ in 0..steps {
        match rng.below(6) {
            0 => {
                // set up again while nothing is logged
                let earlier: Vec<Option<Vec<u8>>> = files.iter().map(|f| std::fs::read(f).ok()).collect();
                place = draw(rng);
                setup(place)?;
                used[place.0] = true;
                for (i, before) in earlier.iter().enumerate() {
                    if let Some(before) = before {
                        let now = std::fs::read(&files[i]).unwrap_or_default();
                        ensure!(now.starts_with(before), "setting logging up again changes the file of {:?}; steps {:?}", files[i], history);
                        if i != place.0 {
                            ensure!(now == *before, "setting logging up again writes to the earlier file {:?}", files[i]);
                        }
                        o.hit("earlier_file_kept");
                    }
                }
                history.push(format!("{:?}", place));
                o.hit("set_up_again");
            }
            1 => {
                let bad = if rng.chance(0.5) { plain.clone() } else { plain.join("x/y") };
                ensure!(configure_logger(&bad, *rng.pick(&LEVELS)).is_err(), "logging to {:?} below a file is set up", bad);
                history.push("uncreatable".into());
                o.hit("uncreatable_directory_rejected");
            }
            2 => {
                // set up again while others log
                let next = draw(rng);
                // to the same file again: see same_file_again
                let long = if next.0 == place.0 { 0.0 } else { 0.02 };
                let writers = 1 + rng.below(4);
                let count = 20 + rng.below(60);
                let barrier = Barrier::new(writers + 1);
                let phase = AtomicU64::new(0); // 0: before, 1: setting up, 2: done
                let pause = rng.below(300) as u64;
                let seeds: Vec<u64> = (0..writers).map(|_| rng.u64()).collect();
                let collected = Mutex::new(Vec::new());
                let outcome = std::thread::scope(|scope| {
                    for w in 0..writers {
                        let (barrier, phase, collected, tag, first) = (&barrier, &phase, &collected, &tag, numbers[w]);
                        let mut r = Rng::new(seeds[w], "P25", w as u64);
                        scope.spawn(move || {
                            barrier.wait();
                            for i in 0..count {
                                let level = *r.pick(&LEVELS);
                                let text = message(&mut r, tag, w, first + i, long);
                                let before = phase.load(Ordering::SeqCst);
                                issue(&mut r, level, &text);
                                let after = phase.load(Ordering::SeqCst);
                                let mut places = Vec::new();
                                if before < 2 {
                                    places.push(place);
                                }
                                if after > 0 {
                                    places.push(next);
                                }
                                collected.lock().unwrap().push(Issued { thread: w, number: first + i, level, text, places });
                            }
                        });
                    }
                    barrier.wait();
                    std::thread::sleep(std::time::Duration::from_micros(pause));
                    phase.store(1, Ordering::SeqCst);
                    let outcome = setup(next);
                    phase.store(2, Ordering::SeqCst);
                    outcome
                });
                outcome?;
                for n in numbers.iter_mut().take(writers) {
                    *n += count;
                }
                let mut collected = collected.into_inner().unwrap();
                for m in &collected {
                    o.hit(match m.places.len() {
                        2 => "message_during_set_up",
                        _ => "message_around_set_up",
                    });
                }
                issued.append(&mut collected);
                place = next;
                used[place.0] = true;
                history.push(format!("{:?} during {} writers", place, writers));
                o.hit("set_up_while_logging");
            }
            _ => {
                let writers = 1 + rng.below(6);
                let count = 1 + rng.below(40);
                let seeds: Vec<u64> = (0..writers).map(|_| rng.u64()).collect();
                let barrier = Barrier::new(writers);
                let (busy, loaded) = (AtomicBool::new(loading), AtomicU64::new(0));
                let lists: Vec<Vec<Issued>> = std::thread::scope(|scope| {
                    if loading {
                        let (busy, loaded, data) = (&busy, &loaded, &data);
                        scope.spawn(move || {
                            while busy.load(Ordering::SeqCst) {
                                let frames = load_dataset(ds::VERSION, data, &EvaluationTask::Detection, &FrameID::BaseLink);
                                let _ = frames.map(|f| get_current_frame(&f, &gen::time_us(0)).is_some());
                                loaded.fetch_add(1, Ordering::SeqCst);
                            }
                        });
                        // the messages come when it is at it
                        for _ in 0..20_000 {
                            if loaded.load(Ordering::SeqCst) > 0 {
                                break;
                            }
                            std::thread::sleep(std::time::Duration::from_micros(50));
                        }
                    }
                    let handles: Vec<_> = (0..writers)
                        .map(|w| {
                            let (barrier, tag, first) = (&barrier, &tag, numbers[w]);
                            let mut r = Rng::new(seeds[w], "P25", w as u64);
                            scope.spawn(move || {
                                barrier.wait();
                                (0..count)
                                    .map(|i| {
                                        let level = *r.pick(&LEVELS);
                                        let text = message(&mut r, tag, w, first + i, 0.02);
                                        if loading && i % 4 == 0 {
                                            std::thread::sleep(std::time::Duration::from_micros(100));
                                        }
                                        issue(&mut r, level, &text);
                                        Issued { thread: w, number: first + i, level, text, places: vec![place] }
                                    })
                                    .collect()
                            })
                        })
                        .collect();
                    let lists = handles.into_iter().map(|h| h.join().unwrap()).collect();
                    busy.store(false, Ordering::SeqCst);
                    lists
                });
                if loading {
                    o.add("dataset_loaded_while_logging", loaded.load(Ordering::SeqCst));
                }
                issued.extend(lists.into_iter().flatten());
                for n in numbers.iter_mut().take(writers) {
                    *n += count;
                }
                history.push(format!("{} writers", writers));
                o.hit(if writers > 1 { "burst_of_many_threads" } else { "burst_of_one_thread" });
            }
        }
    }

    // what is in the files
    let mut found: HashMap<String, Vec<(usize, usize)>> = HashMap::new(); // line -> (file, position)
    for (i, f) in files.iter().enumerate() {
        if !used[i] {
            ensure!(!f.exists(), "there is a log file {:?} that was not asked for", f);
            continue;
        }
        let bytes = std::fs::read(f).map_err(|e| format!("there is no log file {:?}: {}", f, e))?;
        let text = String::from_utf8(bytes).map_err(|_| format!("the log file {:?} is not text", f))?;
        ensure!(text.is_empty() || text.ends_with('\n'), "the log file {:?} ends within a line", f);
        for (k, line) in text.split('\n').enumerate() {
            // other parts of the process log too
            if line.contains(&format!("{} ", tag)) {
                found.entry(line.to_string()).or_default().push((i, k));
            }
        }
    }
    let mut total = 0;
    let mut last: HashMap<(usize, usize), (usize, usize)> = HashMap::new(); // (thread, file) -> (number, position)
    issued.sort_by_key(|m| (m.thread, m.number));
    for m in &issued {
        let line = format!("{} - {}", m.level, m.text);
        let at = found.get(&line).cloned().unwrap_or_default();
        total += at.len();
        let allowed: Vec<usize> = m.places.iter().filter(|(_, l)| m.level <= *l).map(|(d, _)| *d).collect();
        let must = m.places.iter().all(|(_, l)| m.level <= *l);
        ensure!(at.len() <= 1, "the message {:?} is written {} times; steps {:?}", line, at.len(), history);
        match at.first() {
            None => {
                ensure!(!must, "the message {:?} issued under {:?} is not written; steps {:?}", line, m.places, history);
                o.hit("message_below_level_absent");
            }
            Some((file, position)) => {
                ensure!(
                    allowed.contains(file),
                    "the message {:?} issued under {:?} is written to {:?}; steps {:?}", line, m.places, files[*file], history
                );
                if let Some((number, before)) = last.insert((m.thread, *file), (m.number, *position)) {
                    ensure!(
                        before < *position,
                        "messages {} and {} of thread {} are written in another order; steps {:?}", number, m.number, m.thread, history
                    );
                    o.hit("order_confirmed");
                }
                o.hit("message_confirmed");
            }
        }
    }
    let lines: usize = found.values().map(|v| v.len()).sum();
    if lines != total {
        let odd: Vec<&String> = found.keys().filter(|l| !issued.iter().any(|m| **l == format!("{} - {}", m.level, m.text))).take(3).collect();
        return Err(format!("the log files hold lines that were not issued: {:?}; steps {:?}", odd, history));
    }
    o.nontrivial = history.len() > 2 && total > 0;
    o.shape(history.clone());
    o.sample = Some(json!({"steps": history, "messages": issued.len(), "written": total}));
    Ok(())
}

//! Concurrent use. P26, run under ThreadSanitizer.

use super::config::{render, scenario};
use super::data::{cloud_bytes, copy_files, observed_records, ordered, write_file};
use super::eval::{feed, limited_history, manager, scores, snapshot};
use super::run::{below_here, from_here};
use crate::ds::{self, text, DsParams, NAMES, VERSION};
use crate::gen::{self, FrameIn, Settings};
use crate::obs::{Env, Obs, Verdict};
use crate::rng::Rng;
use chrono::{Duration, NaiveDateTime};
use perception_eval::config::PerceptionEvaluationConfig;
use perception_eval::dataset::nuscenes::{LoadedSampleData, NuScenes};
use perception_eval::dataset::{get_current_frame, load_dataset, FrameGroundTruth};
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::filter::filter_objects;
use perception_eval::frame_id::FrameID;
use perception_eval::label::LabelConverter;
use perception_eval::manager::PerceptionEvaluationManager;
use perception_eval::result::object::get_perception_results;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Barrier;

/// What the threads share.
struct World<'c> {
    settings: Vec<Settings>,
    configs: &'c [PerceptionEvaluationConfig],
    /// Which configuration a history is for, and its frames.
    histories: Vec<(usize, Vec<FrameIn>)>,
    /// Only read.
    manager: PerceptionEvaluationManager<'c>,
    dataset: NuScenes,
    /// Versions and directories.
    dirs: Vec<(&'static str, PathBuf)>,
    ground_truths: Vec<FrameGroundTruth>,
    queries: Vec<NaiveDateTime>,
    scenarios: Vec<PathBuf>,
    results: PathBuf,
    names: Vec<String>,
}

const KINDS: usize = 11;
const KIND_NAMES: [&str; KINDS] = [
    "evaluation_compared",
    "shared_score_compared",
    "shared_lookup_compared",
    "evaluation_load_compared",
    "dataset_load_compared",
    "shared_dataset_compared",
    "pairing_compared",
    "filtering_compared",
    "scenario_compared",
    "names_compared",
    "sensor_data_compared",
];

const FRAMES: [FrameID; 3] = [FrameID::BaseLink, FrameID::Map, FrameID::CamFront];

fn show_frames(frames: &[FrameGroundTruth]) -> String {
    // samples at the same time come in no particular order
    let mut shown: Vec<String> = frames
        .iter()
        .map(|f| {
            let mut keys: Vec<_> = f.objects.iter().map(gen::key).collect();
            keys.sort();
            format!("{} {:?}", f.timestamp, keys)
        })
        .collect();
    shown.sort();
    shown.join("\n")
}

fn show_dataset(n: &NuScenes) -> String {
    let mut records = BTreeMap::new();
    for (table, list) in observed_records(n) {
        let mut list: Vec<String> = list.iter().map(|v: &Value| v.to_string()).collect();
        list.sort();
        records.insert(table, list);
    }
    let mut boxes: Vec<String> = n
        .sample_data_iter()
        .map(|d| match n.get_sample_data(&d.token, &true) {
            Ok((path, list)) => format!("{} {:?} {:?}", d.token, path, list),
            Err(e) => format!("{} {}", d.token, e),
        })
        .collect();
    boxes.sort();
    format!("{:?} {} {:?}", records, ordered(n), boxes)
}

impl World<'_> {
    /// Does one thing and tells what came out.
    fn run(&self, kind: usize, k: usize) -> String {
        match kind {
            0 => {
                let (config, history) = &self.histories[k % self.histories.len()];
                let mut m = manager(&self.configs[*config]);
                if let Err(e) = feed(&mut m, history) {
                    return e;
                }
                let frames: Vec<_> = m.frame_results.iter().map(snapshot).collect();
                format!("{:?} {:?}", frames, scores(&m))
            }
            1 => format!("{:?}", scores(&self.manager)),
            2 => {
                let query = &self.queries[k % self.queries.len()];
                let found = if k % 2 == 0 {
                    self.manager.get_frame_ground_truth(query)
                } else {
                    get_current_frame(&self.ground_truths, query)
                };
                found.map_or("none".to_string(), |f| show_frames(&[f.clone()]))
            }
            3 => {
                let (version, dir) = &self.dirs[k % self.dirs.len()];
                match load_dataset(version, dir, &EvaluationTask::Detection, &FRAMES[k % FRAMES.len()]) {
                    Ok(frames) => show_frames(&frames),
                    Err(e) => format!("error: {}", e),
                }
            }
            4 => {
                let (version, dir) = &self.dirs[k % self.dirs.len()];
                match NuScenes::load(version, dir) {
                    Ok(n) => format!("{} {:?} {}", n.version(), n.dir(), show_dataset(&n)),
                    Err(e) => format!("error: {}", e),
                }
            }
            5 => show_dataset(&self.dataset),
            6 | 7 => {
                let (config, history) = &self.histories[k % self.histories.len()];
                let mut shown = String::new();
                for f in history {
                    if kind == 6 {
                        for r in get_perception_results(&f.est, &f.gt.objects) {
                            shown += &format!("{:?} {:?}\n", gen::key(&r.estimated_object), r.ground_truth_object.as_ref().map(gen::key));
                        }
                    } else {
                        for is_gt in [false, true] {
                            let kept = filter_objects(&f.gt.objects, is_gt, &self.configs[*config].filter_params);
                            shown += &format!("{:?}\n", kept.iter().map(gen::key).collect::<Vec<_>>());
                        }
                    }
                }
                shown
            }
            8 => {
                let i = k % self.scenarios.len();
                let result = self.results.join(format!("{}", i));
                match PerceptionEvaluationConfig::from(self.scenarios[i].to_str().unwrap(), result.to_str().unwrap(), k % 2 == 0) {
                    Ok(c) => format!("{:?}", c),
                    Err(e) => format!("error: {}", e),
                }
            }
            9 => match LabelConverter::new("autoware") {
                Ok(c) => format!("{:?}", self.names.iter().map(|n| c.convert(n)).collect::<Vec<_>>()),
                Err(e) => format!("error: {}", e),
            },
            _ => {
                let mut shown: Vec<String> = self
                    .dataset
                    .sample_data_iter()
                    .map(|d| match d.load() {
                        Ok(LoadedSampleData::PointCloud(m)) => {
                            format!("{} {:?}", d.token, m.transpose().iter().map(|v| v.to_bits()).collect::<Vec<_>>())
                        }
                        Ok(LoadedSampleData::Image(i)) => format!("{} {}", d.token, i.to_rgba8().len()),
                        Err(e) => format!("{} {}", d.token, e),
                    })
                    .collect();
                shown.sort();
                shown.join("\n")
            }
        }
    }

    fn guarded(&self, kind: usize, k: usize) -> Result<String, String> {
        catch_unwind(AssertUnwindSafe(|| self.run(kind, k))).map_err(|_| {
            let (location, message) = crate::take_panic();
            assert!(!crate::in_harness(&location), "{} {}", location, message);
            format!("panic at {}: {}", location, message)
        })
    }
}

/// First difference of two texts.
fn difference(a: &str, b: &str) -> String {
    let at = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(80).min(s.len())..(at + 120).min(s.len())]).to_string();
    format!("alone: ...{}... together: ...{}...", cut(a), cut(b))
}

pub fn p26(rng: &mut Rng, env: &Env, o: &mut Obs) -> Verdict {
    let root = env.dir("p26");
    let mut dirs = Vec::new();
    let mut records = 0;
    for k in 0..2 {
        let dir = root.join(format!("ds{}", k));
        let mut params = DsParams::small(rng);
        params.instances += 1;
        let mut data = ds::consistent(rng, &params);
        for i in 0..data.table("sample_data").len() {
            let v = &mut data.tables.get_mut("sample_data").unwrap()[i];
            if text(v, "fileformat") == "bin" || text(v, "fileformat") == "pcd" {
                v["filename"] = json!(format!("data/LIDAR_TOP/{}.bin", i));
                let len = 20 * (1 + rng.below(40));
                write_file(&dir.join(text(v, "filename")), &cloud_bytes(rng, len));
            }
        }
        data.write(&dir, rng, true);
        records += data.len();
        let version = if k == 0 || rng.chance(0.5) { VERSION } else { "v1.0-mini" };
        if version != VERSION {
            std::fs::rename(dir.join(VERSION), dir.join(version)).expect("harness: rename");
        }
        dirs.push((version, dir));
    }
    // other tables in the same directory
    if rng.chance(0.5) {
        let (version, dir) = dirs[1].clone();
        copy_files(&dir.join(version), &dirs[0].1.join("v1.0-other"));
        dirs.push(("v1.0-other", dirs[0].1.clone()));
    }
    // absolute and relative ones
    let mut written = |rng: &mut Rng, path: &PathBuf| {
        let full = path.to_str().expect("harness: path").to_string();
        let path = match rng.below(4) {
            0 => below_here(&full),
            1 => from_here(&full),
            _ => full,
        };
        o.hit(if path.starts_with('/') { "absolute_path" } else { "relative_path" });
        PathBuf::from(path)
    };
    for k in 0..dirs.len() {
        dirs[k].1 = written(rng, &dirs[k].1);
    }
    let mut settings = Vec::new();
    let mut configs = Vec::new();
    let mut histories = Vec::new();
    for k in 0..2 {
        let (mut s, first) = limited_history(rng);
        s.task = EvaluationTask::Detection;
        let mut list = vec![first];
        for _ in 0..rng.below(3) {
            let p = gen::HistoryParams { frames: 1 + rng.below(4), per_label: 1 + rng.below(4), confidence: gen::Confidence::Uniform, tilted: true, foreign: true, dates: gen::Dates::Regular };
            list.push(gen::history(rng, &s, &p));
        }
        for mut h in list {
            h.truncate(6);
            histories.push((k, h));
        }
        let mut config = s.config()?;
        config.version = dirs[k].0.into();
        config.dataset_path = dirs[k].1.clone();
        settings.push(s);
        configs.push(config);
    }
    // both configurations take turns
    if rng.chance(0.7) {
        histories.sort_by_key(|(k, h)| (h.len(), *k));
    }
    let mut shared = PerceptionEvaluationManager::from(&configs[0]).map_err(|e| format!("a manager of a consistent dataset cannot be made: {}", e))?;
    feed(&mut shared, &histories.iter().find(|(k, _)| *k == 0).unwrap().1)?;
    let ground_truths = shared.frame_ground_truths.clone();
    let queries = ground_truths
        .iter()
        .flat_map(|f| [0, 40_000_000, -75_000_000, 100_000_000].map(|d| f.timestamp + Duration::nanoseconds(d)))
        .collect();
    let mut scenarios = Vec::new();
    for i in 0..2 {
        let s = scenario(rng);
        let file = root.join(format!("scenario{}.yaml", i));
        std::fs::write(&file, render(rng, &s.tree)).expect("harness: write");
        scenarios.push(written(rng, &file));
    }
    scenarios.push(root.join("missing.yaml"));
    let results = root.join("results");
    std::fs::create_dir_all(&results).expect("harness: directory");
    let results = written(rng, &results);
    let world = World {
        settings,
        configs: &configs,
        histories,
        manager: shared,
        dataset: NuScenes::load(dirs[0].0, &dirs[0].1).map_err(|e| format!("loading a consistent dataset fails: {}", e))?,
        dirs,
        ground_truths,
        queries,
        scenarios,
        results,
        names: NAMES.iter().map(|(n, _)| n.to_uppercase()).chain(["strange".to_string()]).collect(),
    };

    // one after the other; twice, because what differs by itself cannot be compared
    let mut alone: Vec<Vec<Option<String>>> = vec![Vec::new(); KINDS];
    for (kind, list) in alone.iter_mut().enumerate() {
        for k in 0..6 {
            let once = world.guarded(kind, k)?;
            let again = world.guarded(kind, k)?;
            if once == again {
                list.push(Some(once));
            } else {
                o.hit("unstable_alone");
                list.push(None);
            }
        }
    }

    let many = rng.chance(0.12);
    let threads = if many { 12 + rng.below(29) } else { 2 + rng.below(7) };
    let rounds = if many { 5 } else if env.thorough { 30 } else { 12 };
    // sometimes all do the same things, sometimes all do others
    let focus: Vec<usize> = (0..if many { 1 } else { 1 + rng.below(KINDS) }).map(|_| rng.below(KINDS)).collect();
    let plans: Vec<Vec<(usize, usize, u64)>> = (0..threads)
        .map(|_| {
            (0..rounds)
                .map(|_| (*rng.pick(&focus), rng.below(6), if rng.chance(0.3) { rng.below(300) as u64 } else { 0 }))
                .collect()
        })
        .collect();
    let barrier = Barrier::new(threads);
    // nothing but relaxed operations, which order nothing: races stay visible
    let flying: Vec<AtomicUsize> = (0..KINDS).map(|_| AtomicUsize::new(0)).collect();
    let meetings: Vec<AtomicUsize> = (0..KINDS * KINDS).map(|_| AtomicUsize::new(0)).collect();
    let outcomes: Vec<Result<Vec<usize>, String>> = std::thread::scope(|scope| {
        let handles: Vec<_> = plans
            .iter()
            .map(|plan| {
                let (world, alone, barrier, flying, meetings) = (&world, &alone, &barrier, &flying, &meetings);
                scope.spawn(move || {
                    barrier.wait();
                    let mut done = vec![0; KINDS];
                    let mut failure = None;
                    for (kind, k, pause) in plan {
                        if *pause > 0 {
                            std::thread::sleep(std::time::Duration::from_micros(*pause));
                        }
                        flying[*kind].fetch_add(1, Relaxed);
                        for other in 0..KINDS {
                            let here = flying[other].load(Relaxed);
                            if here > usize::from(other == *kind) {
                                meetings[kind * KINDS + other].fetch_add(1, Relaxed);
                            }
                        }
                        let got = world.guarded(*kind, *k);
                        flying[*kind].fetch_sub(1, Relaxed);
                        match (got, &alone[*kind][*k]) {
                            (Err(e), _) => failure = failure.or(Some(format!("{} {}: {}", KIND_NAMES[*kind], k, e))),
                            (Ok(got), Some(want)) if got != *want => {
                                failure = failure.or(Some(format!("{} {}: {}", KIND_NAMES[*kind], k, difference(want, &got))));
                            }
                            (Ok(_), Some(_)) => done[*kind] += 1,
                            (Ok(_), None) => {}
                        }
                    }
                    match failure {
                        Some(e) => Err(e),
                        None => Ok(done),
                    }
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
    });
    for outcome in outcomes {
        let done = outcome.map_err(|e| format!("with {} threads, settings {:?}: {}", threads, world.settings, e))?;
        for (kind, n) in done.iter().enumerate() {
            o.add(KIND_NAMES[kind], *n as u64);
        }
    }
    for kind in 0..KINDS {
        for other in 0..KINDS {
            let n = meetings[kind * KINDS + other].load(Relaxed);
            if n > 0 {
                o.add("overlaps_observed", n as u64);
                o.shape((kind, other));
                o.nontrivial = true;
            }
        }
    }
    // what was shared is as it was
    for kind in [1, 2, 5] {
        if let Some(want) = &alone[kind][0] {
            let got = world.guarded(kind, 0)?;
            if got != *want {
                return Err(format!("concurrent use changes what is shared: {} {}", KIND_NAMES[kind], difference(want, &got)));
            }
            o.hit("shared_unchanged");
        }
    }
    o.sample = Some(json!({"threads": threads, "operations": focus.iter().map(|k| KIND_NAMES[*k]).collect::<Vec<_>>(), "records": records}));
    Ok(())
}

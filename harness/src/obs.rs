//! What a case observed.

use serde_json::Value;
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;

/// What the monitors of one case saw. Written by the monitors where they judge, so that counts
/// say what was observed and not what was generated.
#[derive(Default)]
pub struct Obs {
    pub events: BTreeMap<&'static str, u64>,
    /// Fingerprints of distinct observed situations of this case.
    pub shapes: HashSet<u64>,
    pub nontrivial: bool,
    /// The kinds of inputs seen; not part of the signature.
    pub census: crate::census::Census,
    pub sample: Option<Value>,
}

impl Obs {
    pub fn hit(&mut self, event: &'static str) {
        *self.events.entry(event).or_insert(0) += 1;
    }
    pub fn add(&mut self, event: &'static str, n: u64) {
        *self.events.entry(event).or_insert(0) += n;
    }
    pub fn shape<T: std::hash::Hash>(&mut self, value: T) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        value.hash(&mut h);
        self.shapes.insert(h.finish());
    }
    /// Fingerprint of all that was observed.
    pub fn signature(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.events.hash(&mut h);
        let mut shapes: Vec<_> = self.shapes.iter().collect();
        shapes.sort();
        shapes.hash(&mut h);
        h.finish()
    }
}

pub struct Env {
    /// Scratch directory of this worker thread.
    pub scratch: PathBuf,
    pub thorough: bool,
}

impl Env {
    /// A fresh empty directory under the scratch directory of this worker.
    pub fn dir(&self, name: &str) -> PathBuf {
        let path = self.scratch.join(name);
        let _ = std::fs::remove_dir_all(&path);
        std::fs::create_dir_all(&path).expect("harness: scratch directory");
        path
    }
}

/// Outcome of a case: Err is a violation of the property with its witness.
pub type Verdict = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}

use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub classes: BTreeMap<String, u64>,
    pub mismatches: Vec<Value>,
    pub mismatch_count: u64,
    pub extra: BTreeMap<String, Value>,
    pub samples: Vec<Value>,
}
impl Report {
    pub fn count(&mut self, class: &str) {
        self.evaluations += 1;
        *self.classes.entry(class.to_string()).or_insert(0) += 1;
    }
    pub fn mismatch(&mut self, v: Value) {
        self.mismatch_count += 1;
        if self.mismatches.len() < 100 {
            self.mismatches.push(v);
        }
    }
    pub fn json(&self) -> Value {
        json!({
            "evaluations": self.evaluations, "classes": self.classes, "mismatch_count": self.mismatch_count,
            "mismatches": self.mismatches, "extra": self.extra, "samples": self.samples,
        })
    }
}

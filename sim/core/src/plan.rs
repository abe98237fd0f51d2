//! A run = a plan (what the simulated parties do) + a schedule (rt::Sched).
use crate::rt::Sched;
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub op: String,
    pub a: Vec<u64>,
}
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub kind: String,
    pub curve: u64,
    pub knobs: BTreeMap<String, u64>,
    pub steps: Vec<Step>,
    pub sched: Sched,
}
impl Plan {
    pub fn knob(&self, k: &str) -> u64 {
        self.knobs.get(k).cloned().unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, v: u64) {
        self.knobs.insert(k.to_string(), v);
    }
    pub fn step(&mut self, op: &str, a: &[u64]) {
        self.steps.push(Step { op: op.to_string(), a: a.to_vec() });
    }
    pub fn to_json(&self) -> Value {
        json!({"prop": self.prop, "seed": self.seed, "kind": self.kind, "curve": self.curve, "knobs": self.knobs,
               "steps": self.steps.iter().map(|s| json!([s.op, s.a])).collect::<Vec<_>>(), "sched": self.sched.to_json()})
    }
    pub fn from_json(v: &Value) -> Plan {
        Plan {
            prop: v["prop"].as_str().unwrap_or("").to_string(),
            seed: v["seed"].as_u64().unwrap_or(0),
            kind: v["kind"].as_str().unwrap_or("").to_string(),
            curve: v["curve"].as_u64().unwrap_or(0),
            knobs: v["knobs"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap_or(0))).collect()).unwrap_or_default(),
            steps: v["steps"].as_array().map(|a| a.iter().map(|s| Step {
                op: s[0].as_str().unwrap_or("").to_string(),
                a: s[1].as_array().map(|x| x.iter().map(|y| y.as_u64().unwrap_or(0)).collect()).unwrap_or_default(),
            }).collect()).unwrap_or_default(),
            sched: Sched::from_json(&v["sched"]),
        }
    }
}
impl Step {
    pub fn arg(&self, i: usize) -> u64 {
        self.a.get(i).cloned().unwrap_or(0)
    }
}

//! Evidence, known findings and the result passed from the exploring process.

use std::collections::BTreeMap;

use serde::{Deserialize, Serialize};
use serde_json::json;

use crate::engine::Tier;
use crate::props::Prop;

#[derive(Default, Serialize, Deserialize)]
pub struct ChildResult {
    pub evaluations: u64,
    pub transitions: u64,
    pub validated: u64,
    pub states: u64,
    pub distinct_nontrivial: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub spaces: Vec<SpaceReport>,
    pub failures: Vec<FailureReport>,
    pub errors: Vec<String>,
}

#[derive(Default, Serialize, Deserialize)]
pub struct SpaceReport {
    pub name: String,
    pub max_deviations: u32,
    pub evaluations: u64,
    pub transitions: u64,
    pub states: u64,
    pub distinct_nontrivial: u64,
    pub exhausted: bool,
    pub seconds: f64,
}

#[derive(Default, Serialize, Deserialize)]
pub struct FailureReport {
    pub count: u64,
    pub space: String,
    pub space_index: usize,
    pub choices: Vec<u32>,
    pub what: String,
    pub case: String,
    pub detail: String,
}

#[derive(Deserialize, Default)]
struct KnownFile {
    findings: Vec<Known>,
}

#[derive(Deserialize, Clone)]
pub struct Known {
    pub property: String,
    /// The exact identity of the failing input or history.
    pub case: String,
    pub what: String,
}

pub fn known_findings() -> Vec<Known> {
    std::fs::read("/verif/known-findings.json")
        .ok()
        .and_then(|b| serde_json::from_slice::<KnownFile>(&b).ok())
        .unwrap_or_default()
        .findings
}

pub fn write_evidence(
    prop: &Prop,
    tier: Tier,
    r: &ChildResult,
    violations: usize,
    known: usize,
    wall: f64,
) {
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(0);
    let exhaustive = !r.spaces.is_empty() && r.spaces.iter().all(|s| s.exhausted);
    let spaces: Vec<_> = r
        .spaces
        .iter()
        .map(|s| {
            json!({"space": s.name, "executions": s.evaluations, "max_deviations": s.max_deviations,
                   "exhausted": s.exhausted, "seconds": (s.seconds * 100.0).round() / 100.0})
        })
        .collect();
    let mut outcomes: Vec<_> = r.outcomes.iter().collect();
    outcomes.truncate(80);
    let outcomes: BTreeMap<_, _> = outcomes.into_iter().collect();
    let mut coverage = json!({
        "samples": r.samples,
        "rule": prop.rule,
        "exhaustive": exhaustive,
        "spaces": spaces,
        "outcomes": outcomes,
        "counters": r.counters,
    });
    let c = coverage.as_object_mut().unwrap();
    match prop.level {
        "model_checking" => {
            c.insert("states".into(), r.states.into());
            c.insert("transitions".into(), r.transitions.into());
            c.insert("traces_validated_against_impl".into(), r.validated.into());
            c.insert("evaluations".into(), r.evaluations.into());
        }
        _ => {
            c.insert("evaluations".into(), r.evaluations.into());
            c.insert("distinct_nontrivial".into(), r.distinct_nontrivial.into());
        }
    }
    let v = json!({
        "property": prop.id,
        "tier": tier.name(),
        "seed": seed,
        "level": prop.level,
        "coverage": coverage,
        "assumptions": prop.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
        "known_findings_observed": known,
    });
    let path = format!("/verif/evidence/{}.json", prop.id);
    std::fs::write(path, serde_json::to_vec_pretty(&v).unwrap()).expect("evidence");
}

//! Runs one trace under one property's monitor.

use std::collections::BTreeMap;
use std::path::Path;

use crate::props::{stop_name, Cov, Spec, Viol};
use crate::world::{Trace, World};

pub struct Outcome {
    pub viol: Option<(Viol, usize)>,
    pub hash: u64,
    pub steps: u64,
    pub fault_counts: BTreeMap<String, u64>,
    pub op_counts: BTreeMap<String, u64>,
    pub sim_ns: i64,
    pub log: Vec<String>,
    pub texts: BTreeMap<usize, String>,
    /// How the server ended, if it did.
    pub dead: Option<String>,
}

pub fn death_key(d: &crate::srv::Stop) -> String {
    let t = stop_name(d);
    // Only the place counts, not the values in the message.
    let at = t.rsplit(" @ ").next().unwrap_or(&t).trim_end_matches(['"', ')']).to_owned();
    let file = at.rsplit_once(':').map_or(at.clone(), |(f, _)| f.to_owned());
    format!("server died: {}", if t.contains(" @ ") { file } else { t })
}

pub fn run(spec: &Spec, trace: &Trace, scratch: &Path, keep_log: bool, cov: &mut Cov) -> Outcome {
    let mut w = World::new(&trace.cfg, scratch);
    w.keep_log = keep_log;
    let mut m = (spec.monitor)();
    let mut viol = None;
    if !w.boot() {
        let d = w.dead.clone();
        if spec.id == "P01" {
            viol = d.map(|d| {
                (
                    Viol {
                        key: format!("handshake fails: {}", stop_name(&d)),
                        detail: stop_name(&d),
                    },
                    0,
                )
            });
        }
    } else {
        for (i, op) in trace.ops.iter().enumerate() {
            let from = w.steps.len();
            w.exec(i, op);
            if let Err(v) = m.after(&mut w, from, cov) {
                viol = Some((v, i));
                break;
            }
            if let Some(d) = &w.dead {
                let dying = w.steps[from..].iter().find(|s| s.stop.is_some());
                if dying.map_or(spec.id == "P01", |s| m.judges(s)) {
                    viol = Some((
                        Viol {
                            key: death_key(d),
                            detail: format!(
                                "{} while handling {}",
                                stop_name(d),
                                dying.map_or("a restart".to_owned(), |s| crate::props::show(&s.input))
                            ),
                        },
                        i,
                    ));
                }
                break;
            }
        }
        if viol.is_none() && w.dead.is_none() {
            if let Err(v) = m.finish(&mut w, cov) {
                viol = Some((v, trace.ops.len().saturating_sub(1)));
            }
        }
    }
    let mut texts = BTreeMap::new();
    if keep_log {
        for s in &w.steps {
            let p = crate::props::params(s);
            let t = match crate::props::method(s) {
                "textDocument/didOpen" => p["textDocument"]["text"].as_str(),
                "textDocument/didChange" => p["contentChanges"].as_array().and_then(|c| c.last()).and_then(|c| c["text"].as_str()),
                _ => None,
            };
            if let Some(t) = t {
                texts.insert(s.op, t.to_owned());
            }
        }
    }
    let dead = w.dead.as_ref().map(stop_name);
    Outcome {
        viol,
        hash: w.hash.0,
        steps: w.steps.len() as u64,
        fault_counts: std::mem::take(&mut w.fault_counts),
        op_counts: std::mem::take(&mut w.op_counts),
        sim_ns: w.sim_ns,
        log: std::mem::take(&mut w.log),
        texts,
        dead,
    }
}

//! Canonical forms for outputs: only orders the protocol gives no meaning to are normalised.

use serde_json::Value;

fn edit_key(v: &Value) -> (u64, u64, u64, u64) {
    let g = |a: &str, b: &str| v["range"][a][b].as_u64().unwrap_or(u64::MAX);
    (g("start", "line"), g("start", "character"), g("end", "line"), g("end", "character"))
}

/// Sorts: edits of one file by range (stable: inserts at one position keep their order), document
/// changes by file (stable), and the (set valued) list of code action kinds.
pub fn canonical(v: &Value) -> Value {
    match v {
        Value::Array(a) => {
            let mut items: Vec<Value> = a.iter().map(canonical).collect();
            if !items.is_empty() && items.iter().all(|i| i.get("newText").is_some() && i.get("range").is_some()) {
                items.sort_by_key(edit_key);
            }
            Value::Array(items)
        }
        Value::Object(o) => {
            let mut out = serde_json::Map::new();
            let mut keys: Vec<&String> = o.keys().collect();
            keys.sort();
            for k in keys {
                let mut c = canonical(&o[k]);
                if k == "documentChanges" {
                    if let Value::Array(items) = &mut c {
                        items.sort_by_key(|i| {
                            i["uri"]
                                .as_str()
                                .or_else(|| i["textDocument"]["uri"].as_str())
                                .unwrap_or_default()
                                .to_owned()
                        });
                    }
                }
                if k == "codeActionKinds" {
                    if let Value::Array(items) = &mut c {
                        items.sort_by_key(|i| i.as_str().unwrap_or_default().to_owned());
                    }
                }
                out.insert(k.clone(), c);
            }
            Value::Object(out)
        }
        other => other.clone(),
    }
}

pub fn canon(v: &Value) -> String {
    canonical(v).to_string()
}

/// Shortened rendering for logs (full text stays in the hash).
pub fn brief(v: &Value) -> String {
    v.to_string()
}

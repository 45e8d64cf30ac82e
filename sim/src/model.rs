//! Executable reference model of the protocol layer: what the server must answer, computed from the
//! analysis library's byte offset API and this crate's own position arithmetic. Nothing of the
//! server's translators, handlers, routers or state is used.

use std::panic::{catch_unwind, AssertUnwindSafe};

use ink_analyzer::{ActionKind, Analysis, CompletionKind, Severity, TextRange, TextSize, Version};
use serde_json::{json, Map, Value};

use crate::gen::Lang;
use crate::pos::{self, Enc};
use crate::world::Caps;

pub fn version(l: Lang) -> Version {
    match l {
        Lang::V4 => Version::V4,
        Lang::V5 => Version::V5,
    }
}

fn size(n: usize) -> TextSize {
    TextSize::from(n as u32)
}

fn span(a: usize, b: usize) -> TextRange {
    TextRange::new(size(a), size(b))
}

fn bytes(r: TextRange) -> (usize, usize) {
    (u32::from(r.start()) as usize, u32::from(r.end()) as usize)
}

/// Range in client units; `None` when an end is not a character boundary of the text.
fn lsp_range(text: &str, r: TextRange, enc: Enc) -> Option<Value> {
    let (a, b) = bytes(r);
    (text.is_char_boundary(a) && text.is_char_boundary(b) && a <= text.len() && b <= text.len())
        .then(|| pos::range_json(text, a, b, enc))
}

/// Runs library code; `None` when it panicked (the server's own death is reported elsewhere).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// `diagnostics` of `textDocument/publishDiagnostics`.
pub fn diagnostics(text: &str, lang: Lang, enc: Enc) -> Option<Value> {
    guarded(|| {
        let list: Vec<Value> = Analysis::new(text, version(lang))
            .diagnostics()
            .into_iter()
            .filter_map(|d| {
                Some(json!({
                    "range": lsp_range(text, d.range, enc)?,
                    "message": d.message,
                    "severity": match d.severity { Severity::Error => 1, Severity::Warning => 2 },
                }))
            })
            .collect();
        Value::Array(list)
    })
}

fn put(m: &mut Value, k: &str, v: Option<Value>) {
    if let (Some(o), Some(v)) = (m.as_object_mut(), v) {
        o.insert(k.to_owned(), v);
    }
}

pub fn completion(text: &str, lang: Lang, off: usize, enc: Enc, caps: &Caps) -> Option<Value> {
    guarded(|| {
        let snippets = caps.snippets == Some(true);
        let items: Vec<Value> = Analysis::new(text, version(lang))
            .completions(size(off))
            .into_iter()
            // LSP: a completion's edit contains the position and stays on one line.
            .filter(|c| {
                let (a, b) = (usize::from(c.range.start()), usize::from(c.range.end()));
                a <= off && off <= b && !text.get(a..b).map_or(true, |t| t.contains('\n'))
            })
            .filter_map(|c| {
                let mut v = json!({
                    "label": c.label,
                    "kind": match c.kind {
                        CompletionKind::Attr | CompletionKind::Field => 5,
                        CompletionKind::Enum => 13,
                        CompletionKind::Fn => 3,
                        CompletionKind::Mod => 9,
                        CompletionKind::Struct => 22,
                        CompletionKind::Trait => 7,
                    },
                    "textEdit": {
                        "range": lsp_range(text, c.range, enc)?,
                        "newText": match (&c.edit.snippet, snippets) {
                            (Some(s), true) => s.clone(),
                            _ => c.edit.text.clone(),
                        },
                    },
                });
                put(&mut v, "detail", c.detail.map(Value::from));
                put(
                    &mut v,
                    "insertTextFormat",
                    snippets.then(|| json!(if c.edit.snippet.is_some() { 2 } else { 1 })),
                );
                Some(v)
            })
            .collect();
        if items.is_empty() {
            Value::Null
        } else {
            json!({"isIncomplete": true, "items": items})
        }
    })
}

pub fn hover(text: &str, lang: Lang, off: usize, enc: Enc) -> Option<Value> {
    guarded(|| {
        Analysis::new(text, version(lang))
            .hover(span(off, off))
            .and_then(|h| Some(json!({"contents": h.content, "range": lsp_range(text, h.range, enc)?})))
            .unwrap_or(Value::Null)
    })
}

pub fn inlay(text: &str, lang: Lang, a: usize, b: usize, enc: Enc) -> Option<Value> {
    guarded(|| {
        let list: Vec<Value> = Analysis::new(text, version(lang))
            .inlay_hints(Some(span(a, b)))
            .into_iter()
            .filter_map(|h| {
                let p = u32::from(h.position) as usize;
                if !text.is_char_boundary(p) {
                    return None;
                }
                let mut v = json!({
                    "position": pos::to_pos(text, p, enc).json(),
                    "label": format!(": {}", h.label),
                    "kind": 1,
                    "paddingLeft": true,
                });
                put(&mut v, "tooltip", h.detail.map(Value::from));
                Some(v)
            })
            .collect();
        Value::Array(list)
    })
}

pub fn code_actions(text: &str, lang: Lang, a: usize, b: usize, uri: &str, enc: Enc, caps: &Caps) -> Option<Value> {
    guarded(|| {
        let resolve = caps.can_resolve_edit();
        let list: Vec<Value> = Analysis::new(text, version(lang))
            .actions(span(a, b))
            .into_iter()
            .filter_map(|act| {
                let lazy = match act.kind {
                    ActionKind::Migrate => Some("migrateProject"),
                    ActionKind::Extract => Some("extractEvent"),
                    _ => None,
                };
                let edits: Vec<(Value, String, Option<String>)> = act
                    .edits
                    .iter()
                    .filter_map(|e| Some((lsp_range(text, e.range, enc)?, e.text.clone(), e.snippet.clone())))
                    .collect();
                if lazy.is_none() && edits.is_empty() {
                    return None;
                }
                let mut v = json!({
                    "title": act.label,
                    "kind": match act.kind {
                        ActionKind::QuickFix => "quickfix",
                        ActionKind::Refactor | ActionKind::Migrate => "refactor.rewrite",
                        ActionKind::Extract => "refactor.extract",
                        _ => "",
                    },
                });
                match lazy {
                    Some(cmd) => {
                        let (s, e) = bytes(act.range);
                        let arg = json!({"uri": uri, "range": {"start": s, "end": e}});
                        if resolve {
                            let mut d = arg;
                            d["command"] = json!(cmd);
                            v["data"] = d;
                        } else {
                            v["command"] = json!({"title": act.label, "command": cmd, "arguments": [arg]});
                        }
                    }
                    None => {
                        let mut snippets = Map::new();
                        let mut list = vec![];
                        for (range, new, snippet) in edits {
                            if let Some(s) = snippet {
                                snippets.insert(new.clone(), Value::from(s));
                            }
                            list.push(json!({"range": range, "newText": new}));
                        }
                        v["edit"] = json!({"changes": {uri: list}});
                        if !snippets.is_empty() {
                            v["data"] = json!({"snippets": snippets});
                        }
                    }
                }
                Some(v)
            })
            .collect();
        Value::Array(list)
    })
}

pub fn signature_help(text: &str, lang: Lang, off: usize, enc: Enc, caps: &Caps, prev: &Value) -> Option<Value> {
    guarded(|| {
        let sigs = Analysis::new(text, version(lang)).signature_help(size(off));
        if sigs.is_empty() {
            return Value::Null;
        }
        let mut active = 0usize;
        if let Some(idx) = prev["activeSignature"].as_u64().filter(|i| *i > 0) {
            if let Some(label) = prev["signatures"].get(idx as usize).and_then(|s| s["label"].as_str()) {
                if let Some(i) = sigs.iter().position(|s| s.label == label) {
                    active = i;
                }
            }
        }
        let doc = |d: &Option<String>| d.as_ref().map(|d| json!({"kind": "markdown", "value": d}));
        let list: Vec<Value> = sigs
            .iter()
            .map(|s| {
                let mut v = json!({"label": s.label});
                put(&mut v, "documentation", doc(&s.detail));
                if !s.parameters.is_empty() {
                    let ps: Vec<Value> = s
                        .parameters
                        .iter()
                        .map(|p| {
                            let (a, b) = bytes(p.range);
                            let label = if caps.label_offset == Some(true) {
                                json!([enc.units(&s.label[..a]), enc.units(&s.label[..b])])
                            } else {
                                json!(s.label[a..b])
                            };
                            let mut v = json!({"label": label});
                            put(&mut v, "documentation", doc(&p.detail));
                            v
                        })
                        .collect();
                    v["parameters"] = Value::Array(ps);
                }
                if caps.active_parameter == Some(true) {
                    put(&mut v, "activeParameter", s.active_parameter.map(|i| json!(i)));
                }
                v
            })
            .collect();
        let mut v = json!({"signatures": list, "activeSignature": active});
        put(&mut v, "activeParameter", sigs[active].active_parameter.map(|i| json!(i)));
        v
    })
}

/// Edits (in client units) that migrate the document.
pub fn migrate_edits(text: &str, lang: Lang, enc: Enc) -> Option<Value> {
    guarded(|| {
        let list: Vec<Value> = Analysis::new(text, version(lang))
            .migrate()
            .into_iter()
            .filter_map(|e| Some(json!({"range": lsp_range(text, e.range, enc)?, "newText": e.text})))
            .collect();
        Value::Array(list)
    })
}

/// Name of the extracted event, content of its new file and edits to the document.
pub fn extraction(text: &str, lang: Lang, a: usize, b: usize, enc: Enc) -> Option<Option<(String, String, Vec<Value>, Value)>> {
    guarded(|| {
        let x = Analysis::new(text, version(lang)).extract(span(a, b))?;
        let edits: Vec<Value> = x
            .edits
            .iter()
            .filter_map(|e| Some(json!({"range": lsp_range(text, e.range, enc)?, "newText": e.text})))
            .collect();
        let at = lsp_range(text, TextRange::empty(x.import_offset), enc)?;
        Some((x.name, x.content, edits, at))
    })
}

pub struct Diag {
    pub start: usize,
    pub end: usize,
    pub message: String,
    pub error: bool,
    /// Quick fixes: label and byte edits.
    pub fixes: Vec<(String, Vec<pos::ByteEdit>)>,
}

/// Diagnostics with byte ranges and their quick fixes.
pub fn raw_diagnostics(text: &str, lang: Lang) -> Option<Vec<Diag>> {
    guarded(|| {
        Analysis::new(text, version(lang))
            .diagnostics()
            .into_iter()
            .map(|d| {
                let (start, end) = bytes(d.range);
                Diag {
                    start,
                    end,
                    message: d.message,
                    error: d.severity == Severity::Error,
                    fixes: d
                        .quickfixes
                        .unwrap_or_default()
                        .into_iter()
                        .map(|q| {
                            let edits = q
                                .edits
                                .iter()
                                .map(|e| {
                                    let (start, end) = bytes(e.range);
                                    pos::ByteEdit {
                                        start,
                                        end,
                                        text: e.text.clone(),
                                    }
                                })
                                .collect();
                            (q.label, edits)
                        })
                        .collect(),
                }
            })
            .collect()
    })
}

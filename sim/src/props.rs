//! The properties, as monitors over the history of a simulated run.

use std::collections::{BTreeMap, BTreeSet, HashSet};

use lsp_server::{Message, Response};
use serde_json::{json, Value};

use crate::canon::{canon, canonical};
use crate::fresh::{self, to_value, Query};
use crate::gen::Lang;
use crate::model;
use crate::pos::{self, Enc, Pos};
use crate::profile::Profile;
use crate::rng::{derive, fnv};
use crate::srv::Stop;
use crate::world::{self, transparent, ModelDoc, Step, World, K};

#[derive(Clone, Debug)]
pub struct Viol {
    /// Stable identification of what fails (used for known findings and by the minimiser).
    pub key: String,
    pub detail: String,
}

pub fn viol<T>(key: impl Into<String>, detail: impl Into<String>) -> Result<T, Viol> {
    Err(Viol {
        key: key.into(),
        detail: detail.into(),
    })
}

/// What was actually judged, for the evidence.
#[derive(Default)]
pub struct Cov {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}

impl Cov {
    /// One judgement; `content` distinguishes non-trivial ones.
    pub fn judged(&mut self, nontrivial: bool, content: &str) {
        self.evaluations += 1;
        if nontrivial && self.distinct.insert(fnv(content.as_bytes())) && self.samples.len() < 4 {
            let s: String = content.chars().take(240).collect();
            self.samples.push(s);
        }
    }
}

pub trait Monitor {
    /// Judges the steps an operation added (`w.steps[from..]`).
    fn after(&mut self, w: &mut World, from: usize, cov: &mut Cov) -> Result<(), Viol>;
    fn finish(&mut self, _w: &mut World, _cov: &mut Cov) -> Result<(), Viol> {
        Ok(())
    }
    /// Is the death of the server while it handles this message this property's business?
    fn judges(&self, s: &Step) -> bool;
}

pub fn docs_after<'a>(w: &'a World, i: usize) -> &'a BTreeMap<String, ModelDoc> {
    w.steps.get(i + 1).map_or(&w.docs, |s| &s.docs_before)
}

pub fn opaque(s: &Step) -> bool {
    s.faults.iter().any(|f| !transparent(f))
}

pub fn method(s: &Step) -> &str {
    match &s.input {
        Message::Request(r) => &r.method,
        Message::Notification(n) => &n.method,
        Message::Response(_) => "(response)",
    }
}

pub fn params(s: &Step) -> &Value {
    match &s.input {
        Message::Request(r) => &r.params,
        Message::Notification(n) => &n.params,
        Message::Response(_) => &Value::Null,
    }
}

pub fn response(s: &Step) -> Option<&Response> {
    let Message::Request(req) = &s.input else {
        return None;
    };
    s.outputs.iter().find_map(|m| match m {
        Message::Response(r) if r.id == req.id => Some(r),
        _ => None,
    })
}

pub fn result(s: &Step) -> Option<&Value> {
    response(s).and_then(|r| r.result.as_ref())
}

pub fn published(s: &Step) -> Vec<&Value> {
    s.outputs
        .iter()
        .filter_map(|m| match m {
            Message::Notification(n) if n.method == "textDocument/publishDiagnostics" => Some(&n.params),
            _ => None,
        })
        .collect()
}

pub fn server_requests(s: &Step) -> Vec<&lsp_server::Request> {
    s.outputs
        .iter()
        .filter_map(|m| match m {
            Message::Request(r) => Some(r),
            _ => None,
        })
        .collect()
}

fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 1500 {
        format!("{}… ({} bytes)", s.chars().take(1500).collect::<String>(), s.len())
    } else {
        s
    }
}

pub fn show(m: &Message) -> String {
    short(&to_value(m))
}

/// Points at the first difference between two canonical texts.
pub fn differ(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let from = pos::floor_boundary(a, i.saturating_sub(120));
    let from_b = pos::floor_boundary(b, i.saturating_sub(120));
    format!(
        "got …{}… expected …{}…",
        a[from..].chars().take(360).collect::<String>(),
        b[from_b..].chars().take(360).collect::<String>()
    )
}

/// If this message changes what the server knows about a document: its URI and new text.
pub enum Sync<'a> {
    Set(&'a str),
    Closed(&'a str),
    No,
}

pub fn sync(s: &Step) -> Sync<'_> {
    let Message::Notification(n) = &s.input else {
        return Sync::No;
    };
    let td = &n.params["textDocument"];
    let uri = td["uri"].as_str().unwrap_or_default();
    match n.method.as_str() {
        "textDocument/didOpen" if td["languageId"] == "rust" => Sync::Set(uri),
        "textDocument/didChange"
            if s.docs_before.contains_key(uri)
                && n.params["contentChanges"].as_array().is_some_and(|a| !a.is_empty()) =>
        {
            Sync::Set(uri)
        }
        "textDocument/didClose" if s.docs_before.contains_key(uri) => Sync::Closed(uri),
        _ => Sync::No,
    }
}

pub const POSITIONAL: &[&str] = &[
    "textDocument/completion",
    "textDocument/hover",
    "textDocument/signatureHelp",
    "textDocument/codeAction",
    "textDocument/inlayHint",
];

pub fn is_positional(s: &Step) -> bool {
    matches!(s.input, Message::Request(_)) && POSITIONAL.contains(&method(s))
}

pub fn doc_uri(s: &Step) -> &str {
    params(s)["textDocument"]["uri"].as_str().unwrap_or_default()
}

/// Command name and target of a command or of a lazy code action's resolution.
pub fn command(s: &Step) -> Option<(&str, &Value)> {
    let Message::Request(r) = &s.input else {
        return None;
    };
    match r.method.as_str() {
        "workspace/executeCommand" => Some((r.params["command"].as_str()?, &r.params["arguments"][0])),
        "codeAction/resolve" => Some((r.params["data"]["command"].as_str()?, &r.params["data"])),
        _ => None,
    }
}

pub struct Spec {
    pub id: &'static str,
    pub profile: fn() -> Profile,
    pub monitor: fn() -> Box<dyn Monitor>,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

// ---------------------------------------------------------------------------------------------
// P01: nothing a client or the disk does brings the server down.

pub struct P01;
impl Monitor for P01 {
    fn after(&mut self, w: &mut World, from: usize, cov: &mut Cov) -> Result<(), Viol> {
        for s in &w.steps[from..] {
            cov.judged(true, &format!("{:?} {} -> {} outputs", s.k, method(s), s.outputs.len()));
            if let Message::Request(_) = s.input {
                let h = derive(fnv(params(s).to_string().as_bytes()), fnv(method(s).as_bytes()));
                cov.distinct.insert(h);
            }
        }
        Ok(())
    }
    fn judges(&self, _: &Step) -> bool {
        true
    }
}

// ---------------------------------------------------------------------------------------------
// P02: every request gets exactly one, correctly classified response; nothing else does.

enum Expect {
    Code(i32),
    Error,
    Result,
    Null,
    Any,
}

/// Does a result have the shape the protocol prescribes for the method (a list where the list is the answer)?
fn result_ok(method: &str, v: &Value) -> bool {
    fn ok<R: lsp_types::request::Request>(v: &Value) -> bool
    where
        R::Result: serde::de::DeserializeOwned,
    {
        serde_json::from_value::<R::Result>(v.clone()).is_ok()
    }
    use lsp_types::request as q;
    match method {
        "textDocument/completion" => ok::<q::Completion>(v),
        "textDocument/hover" => ok::<q::HoverRequest>(v),
        "textDocument/signatureHelp" => ok::<q::SignatureHelpRequest>(v),
        "textDocument/codeAction" => v.is_array() && ok::<q::CodeActionRequest>(v),
        "textDocument/inlayHint" => v.is_array() && ok::<q::InlayHintRequest>(v),
        "codeAction/resolve" => ok::<q::CodeActionResolveRequest>(v),
        _ => true,
    }
}

fn params_ok(method: &str, p: &Value) -> bool {
    fn ok<R: lsp_types::request::Request>(p: &Value) -> bool
    where
        R::Params: serde::de::DeserializeOwned,
    {
        serde_json::from_value::<R::Params>(p.clone()).is_ok()
    }
    use lsp_types::request as q;
    match method {
        "textDocument/completion" => ok::<q::Completion>(p),
        "textDocument/hover" => ok::<q::HoverRequest>(p),
        "textDocument/signatureHelp" => ok::<q::SignatureHelpRequest>(p),
        "textDocument/codeAction" => ok::<q::CodeActionRequest>(p),
        "textDocument/inlayHint" => ok::<q::InlayHintRequest>(p),
        "codeAction/resolve" => ok::<q::CodeActionResolveRequest>(p),
        "workspace/executeCommand" => ok::<q::ExecuteCommand>(p),
        _ => false,
    }
}

pub fn valid_project_name(n: &str) -> bool {
    n.chars().next().is_some_and(char::is_alphabetic)
        && n.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-')
}

/// Is this a URL the way the protocol understands it (scheme present)?
fn is_url(s: &str) -> bool {
    s.split_once(':').is_some_and(|(scheme, _)| {
        scheme.starts_with(|c: char| c.is_ascii_alphabetic())
            && scheme.chars().all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c))
    })
}

fn byte_range_ok(v: &Value) -> bool {
    match (v["start"].as_u64(), v["end"].as_u64()) {
        (Some(a), Some(b)) => a <= b && b <= u64::from(u32::MAX),
        _ => false,
    }
}

fn expect(s: &Step) -> Expect {
    let m = method(s);
    let known = POSITIONAL.contains(&m) || m == "codeAction/resolve" || m == "workspace/executeCommand";
    if !known {
        return Expect::Code(-32601);
    }
    let p = params(s);
    if !params_ok(m, p) {
        return Expect::Code(-32602);
    }
    if POSITIONAL.contains(&m) {
        if !s.docs_before.contains_key(doc_uri(s)) {
            return Expect::Null;
        }
        return if s.k == K::OutOfRange { Expect::Any } else { Expect::Result };
    }
    let Some((cmd, arg)) = command(s) else {
        return Expect::Error;
    };
    let uri = arg["uri"].as_str().filter(|u| is_url(u));
    let open_rs = uri.is_some_and(|u| u.ends_with(".rs") && s.docs_before.contains_key(u));
    match (cmd, m) {
        ("createProject", "workspace/executeCommand") => {
            match (arg["name"].as_str(), arg["root"].as_str().filter(|r| is_url(r))) {
                (Some(n), Some(root)) if valid_project_name(n) && root.starts_with("file://") => Expect::Result,
                // A project cannot be laid out below a URL that has no hierarchy.
                (Some(n), Some(_)) if valid_project_name(n) => Expect::Any,
                _ => Expect::Error,
            }
        }
        ("migrateProject", _) => {
            if open_rs {
                Expect::Any
            } else {
                Expect::Error
            }
        }
        ("extractEvent", _) => {
            if open_rs && byte_range_ok(&arg["range"]) {
                Expect::Any
            } else {
                Expect::Error
            }
        }
        _ => Expect::Error,
    }
}

pub struct P02;
impl Monitor for P02 {
    fn after(&mut self, w: &mut World, from: usize, cov: &mut Cov) -> Result<(), Viol> {
        for s in &w.steps[from..] {
            if s.stop.is_some() {
                continue;
            }
            let m = method(s);
            let resps: Vec<&Response> = s
                .outputs
                .iter()
                .filter_map(|m| match m {
                    Message::Response(r) => Some(r),
                    _ => None,
                })
                .collect();
            for req in server_requests(s) {
                if req.method != "workspace/applyEdit" && req.method != "window/showDocument" {
                    return viol("server request of unknown kind", show(&Message::Request(req.clone())));
                }
            }
            for o in &s.outputs {
                if let Message::Notification(n) = o {
                    if n.method != "textDocument/publishDiagnostics" {
                        return viol("unexpected notification", show(o));
                    }
                }
            }
            let Message::Request(req) = &s.input else {
                if let Some(r) = resps.first() {
                    return viol(
                        format!("response to a {}", if m == "(response)" { "response" } else { "notification" }),
                        format!("input {} output {r:?}", show(&s.input)),
                    );
                }
                continue;
            };
            if resps.len() != 1 {
                return viol(
                    format!("{} responses to {m}", resps.len()),
                    format!("request {} got {} responses", show(&s.input), resps.len()),
                );
            }
            let r = resps[0];
            if r.id != req.id {
                return viol(format!("wrong response id for {m}"), format!("request {} response {r:?}", show(&s.input)));
            }
            let wire = to_value(&Message::Response(r.clone()));
            if wire.get("result").is_some() == wire.get("error").is_some() {
                return viol(
                    format!("response to {m} is not exactly one of result and error"),
                    format!("request {} response {}", show(&s.input), short(&wire)),
                );
            }
            let code = r.error.as_ref().map(|e| e.code);
            let bad = match expect(s) {
                Expect::Code(c) => (code != Some(c)).then(|| format!("error {c}")),
                Expect::Error => code.is_none().then(|| "an error".to_owned()),
                Expect::Result => code.is_some().then(|| "a result".to_owned()),
                Expect::Null => (r.result != Some(Value::Null)).then(|| "a null result".to_owned()),
                Expect::Any => None,
            };
            if let Some(want) = bad {
                return viol(
                    format!("{m} answered by {} instead of {want}", code.map_or("a result".to_owned(), |c| format!("error {c}"))),
                    format!("request {} response {}", show(&s.input), short(&wire)),
                );
            }
            if let (Some(v), false) = (&r.result, matches!(expect(s), Expect::Null)) {
                if !result_ok(m, v) {
                    return viol(
                        format!("{m} answered by a result that is not of its kind"),
                        format!("request {} response {}", show(&s.input), short(&wire)),
                    );
                }
            }
            cov.judged(true, &format!("{m} {} -> {}", canon(params(s)), code.map_or("result".to_owned(), |c| c.to_string())));
        }
        Ok(())
    }
    fn judges(&self, s: &Step) -> bool {
        matches!(s.input, Message::Request(_))
    }
}

// ---------------------------------------------------------------------------------------------
// P03: answers depend on the latest synced text only.

pub struct P03 {
    pub salt: u64,
}

impl P03 {
    fn query(&mut self, w: &World, open: Vec<(String, String, i32, Lang)>, then: Vec<Message>) -> Query {
        self.salt = self.salt.wrapping_add(1);
        Query {
            caps: w.cfg.caps.json(),
            root: w.root.clone(),
            hash_seed: derive(self.salt, 77),
            open,
            then,
            burst: false,
            natural: false,
        }
    }
}

pub fn sole(d: &ModelDoc) -> Option<Lang> {
    (!d.blurred && d.langs.len() == 1).then(|| *d.langs.iter().next().expect("lang"))
}

fn canon_all(msgs: &[Message]) -> String {
    msgs.iter().map(|m| canon(&to_value(m))).collect::<Vec<_>>().join("\n")
}

fn canon_vals(vals: &[Value]) -> String {
    vals.iter().map(canon).collect::<Vec<_>>().join("\n")
}

impl Monitor for P03 {
    fn after(&mut self, w: &mut World, from: usize, cov: &mut Cov) -> Result<(), Viol> {
        for i in from..w.steps.len() {
            let s = w.steps[i].clone();
            if opaque(&s) || s.stop.is_some() {
                continue;
            }
            let (open, then, what) = match sync(&s) {
                Sync::Set(uri) => {
                    let Some(d) = docs_after(w, i).get(uri) else {
                        continue;
                    };
                    let Some(lang) = sole(d) else {
                        continue;
                    };
                    (vec![(uri.to_owned(), d.text.clone(), d.version, lang)], vec![], "diagnostics")
                }
                Sync::Closed(_) => continue,
                Sync::No => {
                    if !matches!(s.input, Message::Request(_)) {
                        continue;
                    }
                    let uri = if is_positional(&s) {
                        doc_uri(&s).to_owned()
                    } else if let Some((_, arg)) = command(&s) {
                        arg["uri"].as_str().unwrap_or_default().to_owned()
                    } else {
                        continue;
                    };
                    let open = match s.docs_before.get(&uri) {
                        Some(d) => match sole(d) {
                            Some(lang) => vec![(uri, d.text.clone(), d.version, lang)],
                            None => continue,
                        },
                        None => vec![],
                    };
                    (open, vec![s.input.clone()], method(&s))
                }
            };
            let q = self.query(w, open, then);
            let a = fresh::ask(&q);
            if a.died.is_some() {
                continue;
            }
            let want = if q.then.is_empty() {
                canon_vals(&a.opened[0])
            } else {
                canon_vals(&a.then[0])
            };
            let got = canon_all(&s.outputs);
            if got != want {
                return viol(
                    format!("{what} depends on history"),
                    format!(
                        "after input {} the answer differs from that of a pristine server holding the same text: {}",
                        show(&s.input),
                        differ(&got, &want)
                    ),
                );
            }
            cov.judged(want.len() > 120, &got);
        }
        Ok(())
    }
    fn judges(&self, s: &Step) -> bool {
        matches!(s.input, Message::Request(_)) || !matches!(sync(s), Sync::No)
    }
}

// ---------------------------------------------------------------------------------------------
// P04: one fresh publishDiagnostics per sync.

fn diag_of(v: &Value) -> Vec<String> {
    v.as_array().into_iter().flatten().map(canon).collect()
}

pub struct P04;
impl Monitor for P04 {
    fn after(&mut self, w: &mut World, from: usize, cov: &mut Cov) -> Result<(), Viol> {
        for i in from..w.steps.len() {
            let s = &w.steps[i];
            if s.stop.is_some() {
                continue;
            }
            let pubs = published(s);
            let (uri, doc) = match sync(s) {
                Sync::No => {
                    if !pubs.is_empty() {
                        return viol(
                            format!("diagnostics published by {}", method(s)),
                            format!("input {} published {}", show(&s.input), short(pubs[0])),
                        );
                    }
                    continue;
                }
                Sync::Closed(uri) => (uri, None),
                Sync::Set(uri) => (uri, docs_after(w, i).get(uri)),
            };
            if pubs.len() != 1 {
                return viol(
                    format!("{} publications for {}", pubs.len(), method(s)),
                    format!("input {} was followed by {} publications", show(&s.input), pubs.len()),
                );
            }
            let p = pubs[0];
            if p["uri"] != uri {
                return viol("publication for another document", format!("input {} published {}", show(&s.input), short(p)));
            }
            let got = diag_of(&p["diagnostics"]);
            let Some(doc) = doc else {
                if !got.is_empty() {
                    return viol("diagnostics not cleared on close", format!("input {} published {}", show(&s.input), short(p)));
                }
                cov.judged(false, "");
                continue;
            };
            if p["version"] != json!(doc.version) {
                return viol(
                    "publication with another version",
                    format!("document version {} published {}", doc.version, short(&p["version"])),
                );
            }
            let models: Vec<Vec<String>> = doc
                .langs
                .iter()
                .filter_map(|l| model::diagnostics(&doc.text, *l, w.enc))
                .map(|v| diag_of(&v))
                .collect();
            if models.is_empty() {
                continue;
            }
            if !models.contains(&got) {
                let want = &models[0];
                let missing: Vec<&String> = want.iter().filter(|d| !got.contains(d)).collect();
                let extra: Vec<&String> = got.iter().filter(|d| !want.contains(d)).collect();
                return viol(
                    "publication does not match the document",
                    format!(
                        "input {}: missing {missing:?} unexpected {extra:?} ({} published, {} expected)",
                        show(&s.input),
                        got.len(),
                        want.len()
                    ),
                );
            }
            cov.judged(!got.is_empty(), &got.join("\n"));
        }
        Ok(())
    }
    fn judges(&self, s: &Step) -> bool {
        !matches!(sync(s), Sync::No)
    }
}

// ---------------------------------------------------------------------------------------------
// P05: positions are in the negotiated encoding, in both directions.

/// The result the model expects for a positional request at these byte offsets.
pub fn model_answer(w: &World, s: &Step, doc: &ModelDoc, lang: Lang, a: usize, b: usize) -> Option<Value> {
    let (t, enc, caps) = (doc.text.as_str(), w.enc, &w.cfg.caps);
    match method(s) {
        "textDocument/completion" => model::completion(t, lang, a, enc, caps),
        "textDocument/hover" => model::hover(t, lang, a, enc),
        "textDocument/signatureHelp" => {
            model::signature_help(t, lang, a, enc, caps, &params(s)["context"]["activeSignatureHelp"])
        }
        "textDocument/codeAction" => model::code_actions(t, lang, a, b, doc_uri(s), enc, caps),
        "textDocument/inlayHint" => model::inlay(t, lang, a, b, enc),
        _ => None,
    }
}

/// Position -> byte offset the way the protocol defines it: columns past the end of a line mean the
/// end of the line. `None` for lines that do not exist and for positions inside of a character.
fn clamped(text: &str, p: Pos, enc: Enc) -> Option<usize> {
    let start = text
        .match_indices('\n')
        .map(|(i, _)| i + 1)
        .nth((p.line as usize).checked_sub(1).unwrap_or(usize::MAX))
        .or((p.line == 0).then_some(0))?;
    let end = text[start..].find('\n').map_or(text.len(), |i| start + i);
    if p.col >= enc.units(&text[start..end]) {
        // Do not judge what a carriage return at the end of the line counts for.
        return (!text[start..end].ends_with('\r') || p.col == enc.units(&text[start..end])).then_some(end);
    }
    pos::to_off(text, p, enc)
}

fn offsets_of(s: &Step, text: &str, enc: Enc) -> Option<(usize, usize)> {
    if let Some(o) = s.offsets {
        return Some(o);
    }
    let p = params(s);
    if let Some(x) = p.get("position") {
        let o = clamped(text, Pos::parse(x)?, enc)?;
        return Some((o, o));
    }
    let a = clamped(text, Pos::parse(&p["range"]["start"])?, enc)?;
    let b = clamped(text, Pos::parse(&p["range"]["end"])?, enc)?;
    (a <= b).then_some((a, b))
}

/// The places a position that does not exist may be taken for: the end of the document when the line
/// is beyond it, the end of the line, either side of the character it points into.
fn places(text: &str, p: Pos, enc: Enc) -> Vec<usize> {
    if let Some(o) = clamped(text, p, enc) {
        return vec![o];
    }
    let lines: Vec<&str> = text.split('\n').collect();
    let Some(line) = lines.get(p.line as usize) else {
        return vec![text.len()];
    };
    let start: usize = lines[..p.line as usize].iter().map(|l| l.len() + 1).sum();
    let mut out = vec![];
    let mut col = 0;
    for (i, c) in line.char_indices() {
        let next = col + enc.units(&line[i..i + c.len_utf8()]);
        if col < p.col && p.col < next {
            out.extend([start + i, start + i + c.len_utf8()]);
        }
        col = next;
    }
    if p.col >= col {
        out.extend([start + line.len(), start + line.trim_end_matches('\r').len()]);
    }
    out
}

/// A position or range that does not exist is refused, answered with nothing or answered for the
/// nearest place that does exist: never for another one.
fn odd_answer(w: &World, s: &Step) -> Option<(bool, String)> {
    if !is_positional(s) || !params_ok(method(s), params(s)) {
        return None;
    }
    let doc = s.docs_before.get(doc_uri(s))?;
    if offsets_of(s, &doc.text, w.enc).is_some() {
        return None;
    }
    let got = canon(result(s)?);
    let nothing = result(s).is_some_and(|v| {
        v.is_null() || *v == json!([]) || v.get("items").is_some_and(|i| *i == json!([])) || v.get("signatures").is_some_and(|i| *i == json!([]))
    });
    if nothing {
        return Some((true, got));
    }
    let p = params(s);
    let (froms, tos) = match p.get("position") {
        Some(x) => (places(&doc.text, Pos::parse(x)?, w.enc), None),
        None => (
            places(&doc.text, Pos::parse(&p["range"]["start"])?, w.enc),
            Some(places(&doc.text, Pos::parse(&p["range"]["end"])?, w.enc)),
        ),
    };
    for a in &froms {
        for b in tos.as_ref().unwrap_or(&vec![*a]) {
            for l in &doc.langs {
                match model_answer(w, s, doc, *l, *a.min(b), *a.max(b)) {
                    Some(m) if canon(&m) == got => return Some((true, got)),
                    Some(_) => (),
                    None => return None,
                }
            }
        }
    }
    Some((false, got))
}

/// What a positional request must be answered with, and what it was answered with.
fn answers(w: &World, s: &Step) -> Option<(Vec<String>, String, (usize, usize))> {
    if !is_positional(s) || !params_ok(method(s), params(s)) {
        return None;
    }
    let doc = s.docs_before.get(doc_uri(s))?;
    let (a, b) = offsets_of(s, &doc.text, w.enc)?;
    let models: Vec<String> = doc
        .langs
        .iter()
        .filter_map(|l| model_answer(w, s, doc, *l, a, b))
        .map(|v| canon(&v))
        .collect();
    if models.is_empty() {
        return None;
    }
    let got = match result(s) {
        Some(v) => canon(v),
        None => format!("{:?}", response(s).and_then(|r| r.error.as_ref())),
    };
    Some((models, got, (a, b)))
}

/// The expected and actual answer, if they differ.
pub fn other_answer(w: &World, s: &Step) -> Option<String> {
    let (models, got, _) = answers(w, s)?;
    (!models.contains(&got)).then(|| differ(&got, &models[0]))
}

pub struct P05;
impl Monitor for P05 {
    fn after(&mut self, w: &mut World, from: usize, cov: &mut Cov) -> Result<(), Viol> {
        for i in from..w.steps.len() {
            let s = &w.steps[i];
            if s.stop.is_some() || !is_positional(s) {
                continue;
            }
            match odd_answer(w, s) {
                Some((true, got)) => cov.judged(false, &got),
                Some((false, got)) => {
                    return viol(
                        format!("{} answers for another place than the one that does not exist", method(s)),
                        format!("encoding {}, request {} in {:?}: {got}", w.enc.name(), show(&s.input), s.docs_before[doc_uri(s)].text),
                    );
                }
                None => (),
            }
            let Some((models, got, (a, b))) = answers(w, s) else {
                continue;
            };
            let doc = &s.docs_before[doc_uri(s)];
            if !models.contains(&got) {
                return viol(
                    format!("{} is not about the requested position", method(s)),
                    format!(
                        "encoding {}, request {} at bytes {a}..{b} of {:?}: {}",
                        w.enc.name(),
                        show(&s.input),
                        doc.text,
                        differ(&got, &models[0])
                    ),
                );
            }
            let nontrivial = got != "null" && got != "[]";
            cov.judged(nontrivial, &got);
        }
        Ok(())
    }
    fn judges(&self, s: &Step) -> bool {
        is_positional(s)
    }
}

// ---------------------------------------------------------------------------------------------
// P06: the ink! version follows the project's manifest.

pub struct P06;
impl Monitor for P06 {
    fn after(&mut self, w: &mut World, from: usize, cov: &mut Cov) -> Result<(), Viol> {
        for i in from..w.steps.len() {
            let s = &w.steps[i];
            if s.stop.is_some() {
                continue;
            }
            let Sync::Set(uri) = sync(s) else {
                continue;
            };
            let Some(doc) = docs_after(w, i).get(uri) else {
                continue;
            };
            let Some(lang) = sole(doc) else {
                continue;
            };
            let other = if lang == Lang::V4 { Lang::V5 } else { Lang::V4 };
            let (Some(mine), Some(theirs)) = (
                model::diagnostics(&doc.text, lang, w.enc),
                model::diagnostics(&doc.text, other, w.enc),
            ) else {
                continue;
            };
            if mine == theirs {
                cov.judged(false, "");
                continue;
            }
            let pubs = published(s);
            let Some(p) = pubs.first() else {
                continue;
            };
            let got = canonical(&p["diagnostics"]);
            if got == canonical(&theirs) {
                return viol(
                    format!("analysed as ink! {} instead of {}", name(other), name(lang)),
                    format!(
                        "document {uri}, manifests (nearest first) {:?}, pending re-checks {}, input {}",
                        w.manifest_chain(uri),
                        s.fuel_before,
                        show(&s.input)
                    ),
                );
            }
            cov.judged(
                true,
                &format!(
                    "{uri} {lang:?} {} {} {:?}",
                    s.fuel_before,
                    s.docs_before.contains_key(uri),
                    w.manifest_chain(uri)
                ),
            );
        }
        Ok(())
    }
    fn judges(&self, s: &Step) -> bool {
        matches!(sync(s), Sync::Set(_))
    }
}

pub fn name(l: Lang) -> &'static str {
    match l {
        Lang::V4 => "4",
        Lang::V5 => "5",
    }
}

// ---------------------------------------------------------------------------------------------
// P07: trouble with the disk is contained.

pub struct P07;
impl Monitor for P07 {
    fn after(&mut self, w: &mut World, from: usize, cov: &mut Cov) -> Result<(), Viol> {
        for i in from..w.steps.len() {
            let s = w.steps[i].clone();
            if s.stop.is_some() {
                continue;
            }
            let faulty = !s.faults.is_empty();
            match sync(&s) {
                Sync::Set(uri) => {
                    let Some(doc) = docs_after(w, i).get(uri).cloned() else {
                        continue;
                    };
                    let pubs = published(&s);
                    if pubs.len() != 1 || pubs[0]["uri"] != uri || pubs[0]["version"] != json!(doc.version) {
                        return viol(
                            "sync under I/O faults not answered by its diagnostics",
                            format!("faults {:?} input {} published {:?}", s.faults, show(&s.input), pubs),
                        );
                    }
                    let got = canon(&pubs[0]["diagnostics"]);
                    let mut fit = BTreeSet::new();
                    let mut known = true;
                    for l in &doc.langs {
                        match model::diagnostics(&doc.text, *l, w.enc) {
                            Some(v) if canon(&v) == got => {
                                fit.insert(*l);
                            }
                            Some(_) => (),
                            None => known = false,
                        }
                    }
                    if !known {
                        continue;
                    }
                    if fit.is_empty() {
                        return viol(
                            if faulty { "I/O fault changes diagnostics" } else { "earlier I/O fault leaves a trace" },
                            format!(
                                "faults {:?} input {}: diagnostics fit none of the ink! versions {:?} the document may be analysed with; got {}",
                                s.faults,
                                show(&s.input),
                                doc.langs,
                                got.chars().take(800).collect::<String>()
                            ),
                        );
                    }
                    narrow(w, i, uri, &fit);
                    cov.judged(faulty, &format!("{:?} {uri} {:?} -> {fit:?}", s.faults, doc.langs));
                }
                _ => {
                    if is_positional(&s) {
                        let Some(doc) = s.docs_before.get(doc_uri(&s)) else {
                            continue;
                        };
                        let Some((a, b)) = s.offsets else {
                            continue;
                        };
                        let fit: Vec<String> = doc
                            .langs
                            .iter()
                            .filter_map(|l| model_answer(w, &s, doc, *l, a, b))
                            .map(|v| canon(&v))
                            .collect();
                        let got = result(&s).map(canon).unwrap_or_default();
                        if !fit.is_empty() && !fit.contains(&got) {
                            return viol(
                                format!("{} disturbed by I/O faults", method(&s)),
                                format!("faults {:?} request {}: {}", s.faults, show(&s.input), differ(&got, &fit[0])),
                            );
                        }
                        cov.judged(faulty, &format!("{:?} {} {got}", s.faults, method(&s)));
                        continue;
                    }
                    let Some((cmd, arg)) = command(&s) else {
                        continue;
                    };
                    if cmd != "migrateProject" && cmd != "extractEvent" {
                        continue;
                    }
                    let Some(r) = response(&s) else {
                        return viol(format!("{cmd} unanswered under I/O faults"), format!("faults {:?} request {}", s.faults, show(&s.input)));
                    };
                    let rewrite = s.faults.iter().any(|f| {
                        matches!(
                            f.kind,
                            crate::seam::FaultKind::Replace { .. }
                                | crate::seam::FaultKind::Delete { .. }
                                | crate::seam::FaultKind::Truncate
                        )
                    });
                    if rewrite {
                        continue;
                    }
                    // Either the command fails, or it does exactly what it would have done.
                    let uri = arg["uri"].as_str().unwrap_or_default();
                    let Some(doc) = s.docs_before.get(uri) else {
                        continue;
                    };
                    let Some(lang) = sole(doc) else {
                        continue;
                    };
                    let a = fresh::ask(&Query {
                        caps: w.cfg.caps.json(),
                        root: w.root.clone(),
                        hash_seed: derive(i as u64, 3),
                        open: vec![(uri.to_owned(), doc.text.clone(), doc.version, lang)],
                        then: vec![s.input.clone()],
                        burst: false,
                        natural: false,
                    });
                    if a.died.is_some() {
                        continue;
                    }
                    let want = canon_vals(&a.then[0]);
                    let got = canon_all(&s.outputs);
                    let failed = r.error.is_some() && s.outputs.len() == 1;
                    let hidden = !opaque(&s);
                    if got != want && (hidden || !failed) && !(faulty && opaque(&s) && nearest_changed(w, &s, uri)) {
                        return viol(
                            format!("{cmd} disturbed by I/O faults"),
                            format!("faults {:?} request {}: {}", s.faults, show(&s.input), differ(&got, &want)),
                        );
                    }
                    cov.judged(faulty, &format!("{:?} {cmd} {got}", s.faults));
                }
            }
        }
        Ok(())
    }
    fn judges(&self, s: &Step) -> bool {
        !s.fs.is_empty() || !s.faults.is_empty()
    }
}

/// A failing existence check may legitimately hide a nearer manifest (or an existing directory).
fn nearest_changed(_w: &World, s: &Step, _uri: &str) -> bool {
    s.faults.iter().any(|f| {
        matches!(f.kind, crate::seam::FaultKind::Errno(_))
            && matches!(f.class, crate::seam::OpClass::Stat | crate::seam::OpClass::Any)
    })
}

fn narrow(w: &mut World, i: usize, uri: &str, fit: &BTreeSet<Lang>) {
    for j in i + 1..w.steps.len() {
        if let Some(d) = w.steps[j].docs_before.get_mut(uri) {
            let n: BTreeSet<Lang> = d.langs.intersection(fit).copied().collect();
            d.langs = n;
        }
    }
    if let Some(d) = w.docs.get_mut(uri) {
        let n: BTreeSet<Lang> = d.langs.intersection(fit).copied().collect();
        if !n.is_empty() {
            d.langs = n;
        }
    }
}

// ---------------------------------------------------------------------------------------------
// P08: the server only reads, and only manifests.

pub struct P08;
impl Monitor for P08 {
    fn after(&mut self, w: &mut World, from: usize, cov: &mut Cov) -> Result<(), Viol> {
        for i in from..w.steps.len() {
            let s = &w.steps[i];
            if let Some(x) = s.external.first() {
                return viol(format!("server tried to: {x}"), format!("while handling {}", show(&s.input)));
            }
            let mut uris: Vec<&str> = s.docs_before.keys().map(String::as_str).collect();
            let td = doc_uri(s);
            uris.push(td);
            let mut extract = false;
            if let Some((cmd, arg)) = command(s) {
                extract = cmd == "extractEvent";
                if let Some(u) = arg["uri"].as_str() {
                    uris.push(u);
                }
            }
            let dirs: BTreeSet<std::path::PathBuf> = uris
                .iter()
                .filter_map(|u| world::uri_path(u))
                .flat_map(|p| p.ancestors().skip(1).map(std::path::Path::to_owned).collect::<Vec<_>>())
                .collect();
            for e in &s.fs {
                if e.mutating {
                    return viol(
                        format!("server performed {}", e.op),
                        format!("{} on {} while handling {}", e.op, e.path, show(&s.input)),
                    );
                }
                let p = std::path::Path::new(&e.path);
                let parent_known = p.parent().is_some_and(|d| dirs.contains(d));
                let manifest = p.file_name().is_some_and(|n| n == "Cargo.toml") && parent_known;
                let existence = e.op == "stat" || e.op == "access";
                let dir = existence && dirs.contains(p);
                let candidate = extract && existence && parent_known;
                if !(manifest || dir || candidate) {
                    return viol(
                        "server looked at a file that is not a project manifest",
                        format!("{} of {} while handling {}", e.op, e.path, show(&s.input)),
                    );
                }
            }
            if !s.fs.is_empty() {
                let ops: Vec<String> = s.fs.iter().map(|e| format!("{} {}", e.op, e.path)).collect();
                cov.judged(true, &ops.join(", "));
            } else {
                cov.judged(false, "");
            }
        }
        Ok(())
    }
    fn judges(&self, _: &Step) -> bool {
        false
    }
}

// ---------------------------------------------------------------------------------------------
// P12: outputs are a function of the sequence of inputs.

pub struct P12 {
    pub from: usize,
}

impl Monitor for P12 {
    fn after(&mut self, _w: &mut World, _from: usize, _cov: &mut Cov) -> Result<(), Viol> {
        Ok(())
    }
    fn finish(&mut self, w: &mut World, cov: &mut Cov) -> Result<(), Viol> {
        if w.dead.is_some() || w.steps.is_empty() {
            return Ok(());
        }
        let inputs: Vec<Message> = w.steps.iter().map(|s| s.input.clone()).collect();
        let got: Vec<String> = w
            .steps
            .iter()
            .flat_map(|s| s.outputs.iter().map(|m| canon(&to_value(m))))
            .collect();
        for (mode, burst, seed) in [("pipelined", true, 11u64), ("another process", false, 12)] {
            let a = fresh::ask(&Query {
                caps: w.cfg.caps.json(),
                root: w.root.clone(),
                hash_seed: derive(w.cfg.hash_seed, seed),
                open: vec![],
                then: inputs.clone(),
                burst,
                natural: true,
            });
            if let Some(d) = a.died {
                return viol(format!("{mode}: server died"), format!("{d} on an input sequence it survived before"));
            }
            let want: Vec<String> = if burst {
                // The handshake's response comes first.
                a.then[0].iter().skip(1).map(canon).collect()
            } else {
                a.then.iter().flatten().map(canon).collect()
            };
            if got != want {
                let n = got.iter().zip(&want).take_while(|(x, y)| x == y).count();
                return viol(
                    format!("{mode}: outputs differ"),
                    format!(
                        "output {n} of {}/{}: {}",
                        got.len(),
                        want.len(),
                        differ(
                            got.get(n).map_or("(nothing)", String::as_str),
                            want.get(n).map_or("(nothing)", String::as_str)
                        )
                    ),
                );
            }
            cov.judged(true, &format!("{mode}: {} inputs {} outputs {}", inputs.len(), got.len(), got.join("\n")));
        }
        Ok(())
    }
    fn judges(&self, _: &Step) -> bool {
        false
    }
}

pub fn stop_name(s: &Stop) -> String {
    match s {
        Stop::Hang => "no progress".to_owned(),
        Stop::Exited(e) => format!("{e:?}"),
    }
}

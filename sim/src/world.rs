//! The simulated world: one editor, one workspace on disk, one server, and the history between
//! them. Executes a trace of operations step by step; every choice an operation makes is derived
//! from the entropy recorded in the trace, so a trace replays exactly.

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

use lsp_server::{Message, RequestId};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::fresh::{self, did_open, exchange, notification, request, to_value};
use crate::gen::{self, Lang};
use crate::pos::{self, Enc, Pos};
use crate::rng::{Fnv, Rng};
use crate::seam::{self, Fault, FaultKind, FsEvent, OpClass};
use crate::srv::{Session, Stop};

/// Documents the simulated editor may have open. The directory decides which manifests apply.
pub const SLOTS: &[&str] = &[
    "file:///w/p0/lib.rs",
    "file:///w/p1/src/lib.rs",
    "file:///w/ws/a/lib.rs",
    "file:///w/ws/b/src/contract.rs",
    "file:///w/none/deep/lib.rs",
    "file:///w/sp%20ace/lib.rs",
    "file:///w/%C3%BCn%C3%AF/lib.rs",
    "untitled:Untitled-1",
    "file:///w/p0/notes.txt",
    "file:///w/p0/other.rs",
    "file:///w/p1/src/m1/m2/m3/m4/m5/deep.rs",
    "file:///w/ws/nested/group/c/src/lib.rs",
    "vscode-vfs://github/w/p0/lib.rs",
    "file:///w/p0/lib.rs.bak",
    "file:///w/p0/li",
    "file:///w/p0/lib.rs/odd.rs",
];

/// Manifest locations that exist or may come into existence.
pub const MANIFESTS: &[&str] = &[
    "/w/Cargo.toml",
    "/w/p0/Cargo.toml",
    "/w/p1/Cargo.toml",
    "/w/ws/Cargo.toml",
    "/w/ws/a/Cargo.toml",
    "/w/ws/b/Cargo.toml",
    "/w/sp ace/Cargo.toml",
    "/w/ünï/Cargo.toml",
    "/w/p1/src/Cargo.toml",
    "/w/ws/nested/group/c/Cargo.toml",
];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Caps {
    /// `general.positionEncodings`, in the client's order of preference.
    pub encodings: Option<Vec<String>>,
    pub snippets: Option<bool>,
    pub resolve: Option<Vec<String>>,
    pub active_parameter: Option<bool>,
    pub label_offset: Option<bool>,
    pub apply_edit: Option<bool>,
    pub document_changes: Option<bool>,
    pub resource_ops: Option<Vec<String>>,
    pub action_kinds: Option<Vec<String>>,
    /// `window.showDocument.support`.
    pub show_document: Option<bool>,
}

impl Caps {
    pub fn random(r: &mut Rng) -> Caps {
        let enc_sets: &[Option<&[&str]>] = &[
            None,
            Some(&[]),
            Some(&["utf-16"]),
            Some(&["utf-8"]),
            Some(&["utf-32"]),
            Some(&["utf-16", "utf-8"]),
            Some(&["utf-16", "utf-32"]),
            Some(&["utf-32", "utf-8", "utf-16"]),
            Some(&["utf-8", "utf-32"]),
            Some(&["utf-7", "utf-16", "utf-32"]),
        ];
        let kinds: &[Option<&[&str]>] = &[
            None,
            Some(&[]),
            Some(&["quickfix"]),
            Some(&["", "quickfix", "refactor", "refactor.extract", "refactor.inline", "refactor.rewrite", "source"]),
            Some(&["refactor.rewrite", "refactor.extract"]),
            Some(&["source"]),
        ];
        let opt = |r: &mut Rng| match r.below(3) {
            0 => None,
            1 => Some(false),
            _ => Some(true),
        };
        let strs = |l: &[&str]| l.iter().map(|s| (*s).to_owned()).collect::<Vec<_>>();
        // Half of the clients are full featured editors, the others are odd.
        if r.chance(1, 2) {
            Caps {
                encodings: (*r.pick(enc_sets)).map(strs),
                snippets: Some(true),
                resolve: Some(strs(&["edit"])),
                active_parameter: Some(true),
                label_offset: Some(true),
                apply_edit: Some(true),
                document_changes: Some(true),
                resource_ops: Some(strs(&["create", "rename", "delete"])),
                action_kinds: (*r.pick(kinds)).map(strs),
                show_document: Some(true),
            }
        } else {
            Caps {
                encodings: (*r.pick(enc_sets)).map(strs),
                snippets: opt(r),
                resolve: match r.below(4) {
                    0 => None,
                    1 => Some(vec![]),
                    2 => Some(strs(&["command"])),
                    _ => Some(strs(&["command", "edit"])),
                },
                active_parameter: opt(r),
                label_offset: opt(r),
                apply_edit: opt(r),
                document_changes: opt(r),
                resource_ops: match r.below(4) {
                    0 => None,
                    1 => Some(strs(&["rename", "delete"])),
                    _ => Some(strs(&["rename", "create"])),
                },
                action_kinds: (*r.pick(kinds)).map(strs),
                show_document: opt(r),
            }
        }
    }

    pub fn json(&self) -> Value {
        let mut v = json!({});
        if let Some(e) = &self.encodings {
            v["general"] = json!({"positionEncodings": e});
        }
        let mut td = json!({});
        if self.snippets.is_some() {
            td["completion"] = json!({"completionItem": {"snippetSupport": self.snippets}});
        }
        if self.resolve.is_some() || self.action_kinds.is_some() {
            let mut ca = json!({});
            if let Some(p) = &self.resolve {
                ca["resolveSupport"] = json!({"properties": p});
                ca["dataSupport"] = json!(true);
            }
            if let Some(k) = &self.action_kinds {
                ca["codeActionLiteralSupport"] = json!({"codeActionKind": {"valueSet": k}});
            }
            td["codeAction"] = ca;
        }
        if self.active_parameter.is_some() || self.label_offset.is_some() {
            let mut si = json!({});
            if let Some(a) = self.active_parameter {
                si["activeParameterSupport"] = json!(a);
            }
            if let Some(l) = self.label_offset {
                si["parameterInformation"] = json!({"labelOffsetSupport": l});
            }
            td["signatureHelp"] = json!({"signatureInformation": si});
        }
        if td != json!({}) {
            v["textDocument"] = td;
        }
        let mut ws = json!({});
        if let Some(a) = self.apply_edit {
            ws["applyEdit"] = json!(a);
        }
        if self.document_changes.is_some() || self.resource_ops.is_some() {
            let mut we = json!({});
            if let Some(d) = self.document_changes {
                we["documentChanges"] = json!(d);
            }
            if let Some(o) = &self.resource_ops {
                we["resourceOperations"] = json!(o);
            }
            ws["workspaceEdit"] = we;
        }
        if ws != json!({}) {
            v["workspace"] = ws;
        }
        if let Some(s) = self.show_document {
            v["window"] = json!({"showDocument": {"support": s}});
        }
        v
    }

    /// The encoding the protocol obliges both sides to use for this client: the server's choice
    /// among the offered ones, UTF-16 when nothing else is offered.
    pub fn model_encoding(&self) -> Enc {
        for e in self.encodings.iter().flatten() {
            match e.as_str() {
                "utf-8" => return Enc::Utf8,
                "utf-32" => return Enc::Utf32,
                _ => (),
            }
        }
        Enc::Utf16
    }

    pub fn can_create(&self) -> bool {
        self.apply_edit == Some(true)
            && self.document_changes == Some(true)
            && self
                .resource_ops
                .as_ref()
                .is_some_and(|o| o.iter().any(|x| x == "create"))
    }

    pub fn can_resolve_edit(&self) -> bool {
        self.resolve
            .as_ref()
            .is_some_and(|p| p.iter().any(|x| x == "edit"))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Config {
    pub caps: Caps,
    pub hash_seed: u64,
    /// How many of `SLOTS` this world uses.
    pub slots: Vec<usize>,
    pub disk: Vec<(String, String)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum K {
    Open,
    OpenDup,
    OpenNonRust,
    Change,
    ChangeSmall,
    ChangeMulti,
    ChangeEmpty,
    ChangeUnopened,
    Close,
    CloseUnopened,
    Keystrokes,
    Noise,
    Completion,
    Hover,
    SigHelp,
    CodeAction,
    Inlay,
    /// `codeAction/resolve` of an action the server offered (possibly long ago).
    Resolve,
    /// Apply an offered action's edit to the document and sync it.
    ApplyAction,
    AcceptCompletion,
    CmdCreate,
    CmdMigrate,
    CmdExtract,
    CmdOdd,
    BadParams,
    UnknownMethod,
    /// Request at a position outside of the document.
    OutOfRange,
    /// The editor answers the oldest pending server request (applies it, refuses it, fails).
    Answer,
    StrayResponse,
    /// A third party writes a manifest.
    DiskManifest,
    DiskDelete,
    DiskEventDir,
    ClockJump,
    /// The server process dies; the editor restarts it and re-opens its documents.
    Crash,
    /// Open a clean generated contract that is made for migration/extraction.
    OpenContract,
    /// Open a document whose diagnostics differ between ink! 4 and 5.
    OpenVersionProbe,
    /// Replace a document by one whose diagnostics differ between ink! 4 and 5.
    ChangeProbe,
    /// didClose followed by didOpen of the same text.
    Reopen,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub k: K,
    pub r: u64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text: Option<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<Fault>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Trace {
    pub cfg: Config,
    pub ops: Vec<Op>,
}

/// A document as the client last synced it to the server.
#[derive(Clone, Debug, PartialEq)]
pub struct ModelDoc {
    pub text: String,
    pub version: i32,
    /// ink! versions the server may be using for it (one unless a fault made detection ambiguous).
    pub langs: BTreeSet<Lang>,
    /// True when the set above stems from a step with an injected fault.
    pub blurred: bool,
}

#[derive(Clone, Debug)]
pub struct Step {
    pub op: usize,
    pub k: K,
    /// Message given to the server.
    pub input: Message,
    pub outputs: Vec<Message>,
    pub fs: Vec<FsEvent>,
    pub external: Vec<String>,
    pub stop: Option<Stop>,
    /// Faults that fired during this step.
    pub faults: Vec<Fault>,
    /// Model before the step.
    pub docs_before: BTreeMap<String, ModelDoc>,
    /// Byte offsets behind the positions in the input (when the generator chose valid ones).
    pub offsets: Option<(usize, usize)>,
    pub uri: Option<String>,
    /// Fuel (pending version re-checks) before the step.
    pub fuel_before: u8,
    pub session: usize,
}

impl Step {
    /// A step of which only the input is known.
    pub fn of_input(op: usize, input: Message) -> Step {
        Step {
            op,
            k: K::Noise,
            input,
            outputs: vec![],
            fs: vec![],
            external: vec![],
            stop: None,
            faults: vec![],
            docs_before: BTreeMap::new(),
            offsets: None,
            uri: None,
            fuel_before: 0,
            session: 0,
        }
    }
}

#[derive(Clone, Debug)]
pub struct OfferedAction {
    pub action: Value,
    pub uri: String,
    /// Text and model version the action was computed for.
    pub text: String,
    pub step: usize,
}

pub struct World {
    pub cfg: Config,
    pub enc: Enc,
    pub scratch: PathBuf,
    pub root: PathBuf,
    pub docs: BTreeMap<String, ModelDoc>,
    pub fuel: u8,
    pub steps: Vec<Step>,
    pub session_no: usize,
    pub init_result: Value,
    pub offered: Vec<OfferedAction>,
    pub completions: Option<(String, String, Vec<Value>)>,
    pub pending: Vec<lsp_server::Request>,
    /// Server requests of this session that were answered.
    pub answered: Vec<RequestId>,
    pub server: Option<Session>,
    pub next_id: i32,
    pub next_version: i32,
    pub hash: Fnv,
    pub log: Vec<String>,
    pub keep_log: bool,
    /// Documents (by content) that are complete, valid Rust as generated.
    pub pristine: std::collections::HashSet<u64>,
    pub dead: Option<Stop>,
    pub op_no: usize,
    /// Counters for the evidence.
    pub fault_counts: BTreeMap<String, u64>,
    pub op_counts: BTreeMap<String, u64>,
    /// Called after each step; returns violations.
    pub used_faults: Vec<Fault>,
    /// Client requests that were pipelined behind the simulated clock.
    pub sim_ns: i64,
}

pub fn uri_path(uri: &str) -> Option<PathBuf> {
    let rest = uri.strip_prefix("file://")?;
    let mut bytes = Vec::new();
    let b = rest.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let Ok(x) = u8::from_str_radix(&rest[i + 1..i + 3], 16) {
                bytes.push(x);
                i += 3;
                continue;
            }
        }
        bytes.push(b[i]);
        i += 1;
    }
    String::from_utf8(bytes).ok().map(PathBuf::from)
}

pub fn path_uri(path: &Path) -> String {
    let mut out = String::from("file://");
    for b in path.to_string_lossy().bytes() {
        let c = b as char;
        if c.is_ascii_alphanumeric() || "/-_.~".contains(c) {
            out.push(c);
        } else {
            out.push_str(&format!("%{b:02X}"));
        }
    }
    out
}

impl World {
    pub fn new(cfg: &Config, scratch: &Path) -> World {
        let root = scratch.join("root");
        let _ = std::fs::remove_dir_all(&root);
        std::fs::create_dir_all(root.join("w")).expect("scratch");
        for (path, text) in &cfg.disk {
            let p = seam::under(&root, Path::new(path));
            std::fs::create_dir_all(p.parent().expect("parent")).expect("scratch dir");
            std::fs::write(p, text).expect("scratch file");
        }
        seam::activate(&root, cfg.hash_seed);
        World {
            enc: cfg.caps.model_encoding(),
            cfg: cfg.clone(),
            scratch: scratch.to_owned(),
            root,
            docs: BTreeMap::new(),
            fuel: 0,
            steps: vec![],
            session_no: 0,
            init_result: Value::Null,
            offered: vec![],
            completions: None,
            pending: vec![],
            answered: vec![],
            server: None,
            next_id: 0,
            next_version: 0,
            hash: Fnv::default(),
            log: vec![],
            keep_log: false,
            pristine: Default::default(),
            dead: None,
            op_no: 0,
            fault_counts: BTreeMap::new(),
            op_counts: BTreeMap::new(),
            used_faults: vec![],
            sim_ns: 0,
        }
    }

    pub fn note(&mut self, line: String) {
        self.hash.add(line.as_bytes());
        if self.keep_log {
            self.log.push(line);
        }
    }

    /// Starts (or restarts) the server and performs the handshake.
    pub fn boot(&mut self) -> bool {
        self.server = None;
        seam::set_rand(crate::rng::derive(self.cfg.hash_seed, self.session_no as u64));
        self.session_no += 1;
        let mut s = Session::start(false, 0);
        let (init, inited) = fresh::init_messages(&self.cfg.caps.json());
        let (out, stop) = exchange(&mut s, init);
        let mut stop = stop;
        for m in &out {
            let v = to_value(m);
            self.note(format!("<- {}", crate::canon::canon(&v)));
            if let Some(r) = v.get("result") {
                self.init_result = r.clone();
                self.enc = match r["capabilities"]["positionEncoding"].as_str() {
                    Some("utf-8") => Enc::Utf8,
                    Some("utf-32") => Enc::Utf32,
                    _ => Enc::Utf16,
                };
            }
        }
        if stop.is_none() {
            let (_, st) = exchange(&mut s, inited);
            stop = st;
        }
        self.server = Some(s);
        self.docs.clear();
        self.fuel = 0;
        self.pending.clear();
        self.answered.clear();
        if stop.is_some() {
            self.dead = stop;
            return false;
        }
        true
    }

    pub fn manifest_chain(&self, uri: &str) -> Vec<String> {
        self.manifest_chain_paths(uri)
            .iter()
            .map(|p| std::fs::read_to_string(seam::under(&self.root, p)).unwrap_or_default())
            .collect()
    }

    /// Manifests that apply to a document, nearest first.
    pub fn manifest_chain_paths(&self, uri: &str) -> Vec<PathBuf> {
        let Some(path) = uri_path(uri) else {
            return vec![];
        };
        let mut out = vec![];
        let mut dir = path.parent().map(Path::to_owned);
        while let Some(d) = dir {
            let m = d.join("Cargo.toml");
            if seam::under(&self.root, &m).is_file() {
                out.push(m);
            }
            dir = d.parent().map(Path::to_owned);
        }
        out
    }

    pub fn detect(&self, uri: &str) -> Lang {
        if !uri.starts_with("file://") || !uri.ends_with(".rs") {
            return Lang::V4;
        }
        gen::project_lang(&self.manifest_chain(uri))
    }

    fn id(&mut self) -> RequestId {
        self.next_id += 1;
        if self.next_id % 3 == 0 {
            RequestId::from(format!("r{}", self.next_id))
        } else {
            RequestId::from(self.next_id)
        }
    }

    /// Hands one message to the server and records the step.
    pub fn send(&mut self, k: K, input: Message, uri: Option<String>, offsets: Option<(usize, usize)>, faults: &[Fault]) -> usize {
        let docs_before = self.docs.clone();
        let fuel_before = self.fuel;
        let (outputs, stop) = match self.server.as_mut() {
            Some(s) if self.dead.is_none() => {
                seam::take_events();
                seam::arm(faults);
                crate::worker::record(self.op_no, &input);
                let (o, st) = exchange(s, input.clone());
                (o, st)
            }
            _ => (vec![], self.dead.clone()),
        };
        let fired = seam::disarm();
        let fs = seam::take_events();
        let external = seam::take_external();
        let fired_faults: Vec<Fault> = if fired > 0 {
            faults.to_vec()
        } else {
            vec![]
        };
        for f in &fired_faults {
            *self.fault_counts.entry(fault_name(f)).or_default() += 1;
        }
        // Model update.
        self.update_model(&input, &fs, &fired_faults);
        let in_v = to_value(&input);
        self.note(format!("-> {}", crate::canon::brief(&in_v)));
        for m in &outputs {
            let v = to_value(m);
            self.note(format!("<- {}", crate::canon::canon(&v)));
        }
        if fired > 0 {
            self.note(format!("!! {fired_faults:?}"));
        }
        if let Some(st) = &stop {
            self.note(format!("XX {st:?}"));
            self.dead = Some(st.clone());
        }
        for m in &outputs {
            if let Message::Request(r) = m {
                self.pending.push(r.clone());
            }
        }
        self.steps.push(Step {
            op: self.op_no,
            k,
            input,
            outputs,
            fs,
            external,
            stop,
            faults: fired_faults,
            docs_before,
            offsets,
            uri,
            fuel_before,
            session: self.session_no,
        });
        self.steps.len() - 1
    }

    fn update_model(&mut self, input: &Message, _fs: &[FsEvent], fired: &[Fault]) {
        match input {
            Message::Notification(n) => {
                let td = &n.params["textDocument"];
                let uri = td["uri"].as_str().unwrap_or_default().to_owned();
                match n.method.as_str() {
                    "textDocument/didOpen" if td["languageId"] == "rust" => {
                        let text = td["text"].as_str().unwrap_or_default().to_owned();
                        let version = td["version"].as_i64().unwrap_or_default() as i32;
                        self.model_sync(uri, text, version, fired);
                    }
                    "textDocument/didChange" => {
                        if !self.docs.contains_key(&uri) {
                            return;
                        }
                        let Some(last) = n.params["contentChanges"].as_array().and_then(|a| a.last()) else {
                            return;
                        };
                        let text = last["text"].as_str().unwrap_or_default().to_owned();
                        let version = td["version"].as_i64().unwrap_or_default() as i32;
                        self.model_sync(uri, text, version, fired);
                    }
                    "textDocument/didClose" => {
                        self.docs.remove(&uri);
                    }
                    _ => (),
                }
            }
            Message::Request(r) => {
                let migrate = (r.method == "workspace/executeCommand" && r.params["command"] == "migrateProject")
                    || (r.method == "codeAction/resolve" && r.params["data"]["command"] == "migrateProject");
                if migrate {
                    self.fuel = 2;
                }
            }
            Message::Response(_) => (),
        }
    }

    fn model_sync(&mut self, uri: String, text: String, version: i32, fired: &[Fault]) {
        let recheck = self.fuel > 0;
        if recheck {
            self.fuel -= 1;
        }
        let prev = self.docs.get(&uri);
        let opaque = fired.iter().any(|f| !transparent(f));
        let (langs, blurred) = match prev {
            Some(d) if !recheck => (d.langs.clone(), d.blurred),
            _ => {
                if opaque {
                    ([Lang::V4, Lang::V5].into_iter().collect(), true)
                } else {
                    ([self.detect(&uri)].into_iter().collect(), false)
                }
            }
        };
        self.docs.insert(
            uri,
            ModelDoc {
                text,
                version,
                langs,
                blurred,
            },
        );
    }

    pub fn write_disk(&mut self, path: &str, text: Option<&str>) {
        let p = seam::under(&self.root, Path::new(path));
        match text {
            Some(t) => {
                let _ = std::fs::create_dir_all(p.parent().expect("parent"));
                let _ = std::fs::write(&p, t);
            }
            None => {
                let _ = std::fs::remove_file(&p);
            }
        }
        self.note(format!("disk {path} {}", text.map_or("(deleted)".to_owned(), |t| format!("{t:?}"))));
    }

    fn slot(&self, r: &mut Rng) -> String {
        SLOTS[*r.pick(&self.cfg.slots)].to_owned()
    }

    fn open_uri(&self, r: &mut Rng) -> Option<String> {
        let uris: Vec<&String> = self.docs.keys().collect();
        if uris.is_empty() {
            None
        } else {
            Some((*r.pick(&uris)).clone())
        }
    }

    /// Clients choose document versions; they should increase, but the server must not depend on it.
    fn version(&mut self, r: &mut Rng) -> i32 {
        match crate::rng::derive(self.cfg.hash_seed, 41) % 8 {
            // Never increases (an editor that does not track versions).
            0 => (crate::rng::derive(self.cfg.hash_seed, 42) % 3) as i32,
            // Anything goes.
            1 => *r.pick(&[0, 1, 2, -1, i32::MAX, i32::MIN, 7, 3]),
            // Starts over now and then (documents opened again start at one).
            2 | 3 => {
                self.next_version = if r.chance(1, 4) { 1 } else { self.next_version + 1 };
                self.next_version
            }
            _ => {
                self.next_version += 1 + r.below(3) as i32;
                self.next_version
            }
        }
    }

    fn did_change(&mut self, k: K, uri: &str, text: &str, version: i32, faults: &[Fault]) -> usize {
        let msg = notification(
            "textDocument/didChange",
            json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": [{"text": text}]}),
        );
        self.send(k, msg, Some(uri.to_owned()), None, faults)
    }

    fn target(&self, r: &mut Rng) -> String {
        // Mostly an open document, sometimes one the server does not know.
        if r.chance(1, 24) {
            self.slot(r)
        } else {
            self.open_uri(r).unwrap_or_else(|| self.slot(r))
        }
    }

    /// Executes one operation (possibly several messages).
    pub fn exec(&mut self, idx: usize, op: &Op) {
        self.op_no = idx;
        *self.op_counts.entry(format!("{:?}", op.k)).or_default() += 1;
        let mut r = Rng::new(op.r);
        let f = &op.faults;
        match op.k {
            K::Open | K::OpenContract | K::OpenVersionProbe | K::OpenNonRust | K::OpenDup => {
                let uri = match op.k {
                    K::OpenDup => self.target(&mut r),
                    _ => self.slot(&mut r),
                };
                if op.k != K::OpenDup && op.k != K::OpenNonRust && self.docs.contains_key(&uri) {
                    // Editors do not open twice.
                    let v = self.version(&mut r);
                    self.send(
                        K::Close,
                        notification("textDocument/didClose", json!({"textDocument": {"uri": uri}})),
                        Some(uri.clone()),
                        None,
                        &[],
                    );
                    let _ = v;
                }
                let text = op.text.clone().unwrap_or_else(|| match op.k {
                    K::OpenContract => {
                        let v5 = r.chance(1, 3);
                        let cfg = gen::DocCfg {
                            v5,
                            unicode: r.chance(1, 2),
                            clean: true,
                            min_events: r.below(3),
                        };
                        let mut t = gen::contract(&mut r, &cfg);
                        if r.chance(1, 6) {
                            t = r.pick(&gen::corpus().fixtures).clone();
                        }
                        if r.chance(1, 8) {
                            t = t.replace('\n', "\r\n");
                        }
                        self.pristine.insert(crate::rng::fnv(t.as_bytes()));
                        t
                    }
                    K::OpenVersionProbe => version_probe(&mut r),
                    _ => gen::document(&mut r),
                });
                let lang_id = if op.k == K::OpenNonRust {
                    *r.pick(&["toml", "plaintext", "rust-script", "Rust"])
                } else {
                    "rust"
                };
                if op.k == K::OpenNonRust && self.docs.contains_key(&uri) {
                    return;
                }
                let v = self.version(&mut r);
                self.send(op.k, did_open(&uri, lang_id, v, &text), Some(uri), None, f);
            }
            K::Reopen => {
                let Some(uri) = self.open_uri(&mut r) else {
                    return;
                };
                let text = self.docs[&uri].text.clone();
                self.send(
                    K::Close,
                    notification("textDocument/didClose", json!({"textDocument": {"uri": uri}})),
                    Some(uri.clone()),
                    None,
                    &[],
                );
                let v = self.version(&mut r);
                self.send(op.k, did_open(&uri, "rust", v, &text), Some(uri), None, f);
            }
            K::Change | K::ChangeSmall | K::ChangeProbe => {
                let Some(uri) = self.open_uri(&mut r) else {
                    return;
                };
                let text = op.text.clone().unwrap_or_else(|| {
                    if op.k == K::Change {
                        gen::document(&mut r)
                    } else if op.k == K::ChangeProbe {
                        version_probe(&mut r)
                    } else {
                        gen::mutate(&mut r, &self.docs[&uri].text)
                    }
                });
                let v = self.version(&mut r);
                self.did_change(op.k, &uri, &text, v, f);
            }
            K::ChangeMulti => {
                let Some(uri) = self.open_uri(&mut r) else {
                    return;
                };
                let n = r.range(2, 4);
                let changes: Vec<Value> = (0..n)
                    .map(|_| json!({"text": gen::document(&mut r)}))
                    .collect();
                let v = self.version(&mut r);
                self.send(
                    op.k,
                    notification(
                        "textDocument/didChange",
                        json!({"textDocument": {"uri": uri, "version": v}, "contentChanges": changes}),
                    ),
                    Some(uri),
                    None,
                    f,
                );
            }
            K::ChangeEmpty => {
                let Some(uri) = self.open_uri(&mut r) else {
                    return;
                };
                let v = self.next_version;
                self.send(
                    op.k,
                    notification(
                        "textDocument/didChange",
                        json!({"textDocument": {"uri": uri, "version": v}, "contentChanges": []}),
                    ),
                    Some(uri),
                    None,
                    f,
                );
            }
            K::ChangeUnopened => {
                let uri = self.slot(&mut r);
                if self.docs.contains_key(&uri) {
                    return;
                }
                let text = gen::document(&mut r);
                let v = self.version(&mut r);
                self.did_change(op.k, &uri, &text, v, f);
            }
            K::Close | K::CloseUnopened => {
                let uri = if op.k == K::Close {
                    match self.open_uri(&mut r) {
                        Some(u) => u,
                        None => return,
                    }
                } else {
                    let u = self.slot(&mut r);
                    if self.docs.contains_key(&u) {
                        return;
                    }
                    u
                };
                self.send(
                    op.k,
                    notification("textDocument/didClose", json!({"textDocument": {"uri": uri}})),
                    Some(uri),
                    None,
                    f,
                );
            }
            K::Keystrokes => {
                let Some(uri) = self.open_uri(&mut r) else {
                    return;
                };
                let typed = *r.pick(&[
                    "#[ink::event]", "#[ink(message, payable, selector = 0xA)]", "#[ink(storage)]", "#[ink::co",
                    "#[ink(event)]\npub struct É {}", "#[ink::chain_extension(extension = 1)]", "#[ink(topic)]",
                    "#[ink(constructor, default)]", "#[ink::scale_derive(Encode)]", "use ink::env;", "#[ink_e2e::test(backend(node))]",
                ]);
                let mut at = gen::cursor(&mut r, &self.docs[&uri].text);
                let ask = r.chance(1, 2);
                for c in typed.chars() {
                    let mut text = self.docs[&uri].text.clone();
                    text.insert(at, c);
                    at += c.len_utf8();
                    let v = self.version(&mut r);
                    self.did_change(op.k, &uri, &text, v, &[]);
                    if self.dead.is_some() {
                        return;
                    }
                    if ask && "[(,: =".contains(c) {
                        let k = *r.pick(&[K::Completion, K::SigHelp, K::Hover]);
                        self.position_request(k, &uri, at, f, &mut r);
                        if self.dead.is_some() {
                            return;
                        }
                    }
                }
            }
            K::Noise => {
                let msg = match r.below(7) {
                    0 => notification("$/cancelRequest", json!({"id": self.next_id})),
                    1 => notification("$/setTrace", json!({"value": "verbose"})),
                    2 => notification("workspace/didChangeConfiguration", json!({"settings": {"a": [1, 2]}})),
                    3 => notification("textDocument/didSave", json!({"textDocument": {"uri": self.slot(&mut r)}})),
                    4 => notification("workspace/didChangeWatchedFiles", json!({"changes": []})),
                    5 => notification("no/such/notification", json!([1, "x", null])),
                    _ => notification("initialized", json!({})),
                };
                self.send(op.k, msg, None, None, f);
            }
            K::Completion | K::Hover | K::SigHelp => {
                let uri = self.target(&mut r);
                let off = match self.docs.get(&uri) {
                    Some(d) => gen::cursor(&mut r, &d.text),
                    None => 0,
                };
                self.position_request(op.k, &uri, off, f, &mut r);
            }
            K::CodeAction | K::Inlay => {
                let uri = self.target(&mut r);
                let (a, b) = match self.docs.get(&uri) {
                    Some(d) => range_choice(&mut r, &d.text),
                    None => (0, 0),
                };
                self.range_request(op.k, &uri, a, b, f);
            }
            K::Resolve => {
                let lazy: Vec<OfferedAction> = self
                    .offered
                    .iter()
                    .filter(|a| a.action.get("data").is_some_and(|d| d.get("command").is_some()))
                    .cloned()
                    .collect();
                let id = self.id();
                if lazy.is_empty() || r.chance(1, 10) {
                    // Resolve something hand-made.
                    let uri = self.target(&mut r);
                    let len = self.docs.get(&uri).map_or(10, |d| d.text.len());
                    let a = r.below(len + 1);
                    let b = a + r.below(len + 1 - a);
                    let cmd = *r.pick(&["migrateProject", "extractEvent", "nope"]);
                    let mut action = json!({"title": "x", "data": {"command": cmd, "uri": uri, "range": {"start": a, "end": b}}});
                    match r.below(8) {
                        0 => drop(action.as_object_mut().expect("object").remove("data")),
                        1 => action["data"] = json!({"uri": uri, "range": {"start": a, "end": b}}),
                        2 => action["data"]["command"] = json!(7),
                        _ => (),
                    }
                    self.send(op.k, request(id, "codeAction/resolve", action), Some(uri), Some((a, b)), f);
                } else {
                    let a = r.pick(&lazy).clone();
                    self.send(op.k, request(id, "codeAction/resolve", a.action), Some(a.uri), None, f);
                }
            }
            K::ApplyAction => {
                let Some(off) = self.offered.iter().rev().find(|a| a.action.get("edit").is_some()).cloned() else {
                    return;
                };
                let candidates: Vec<OfferedAction> = self
                    .offered
                    .iter()
                    .filter(|a| a.step == off.step && a.action.get("edit").is_some())
                    .cloned()
                    .collect();
                let pick = r.pick(&candidates).clone();
                let Some(doc) = self.docs.get(&pick.uri) else {
                    return;
                };
                if doc.text != pick.text {
                    return;
                }
                let edits = &pick.action["edit"]["changes"][&pick.uri];
                let Ok(parsed) = pos::parse_edits(&pick.text, edits, self.enc) else {
                    return;
                };
                let Ok(text) = pos::apply_edits(&pick.text, &parsed) else {
                    return;
                };
                let v = self.version(&mut r);
                self.did_change(op.k, &pick.uri, &text, v, f);
            }
            K::AcceptCompletion => {
                let Some((uri, text, items)) = self.completions.clone() else {
                    return;
                };
                if items.is_empty() || self.docs.get(&uri).map(|d| &d.text) != Some(&text) {
                    return;
                }
                let item = r.pick(&items).clone();
                let Ok(parsed) = pos::parse_edits(&text, &json!([item["textEdit"]]), self.enc) else {
                    return;
                };
                let Ok(new) = pos::apply_edits(&text, &parsed) else {
                    return;
                };
                let v = self.version(&mut r);
                self.did_change(op.k, &uri, &new, v, f);
            }
            K::CmdCreate => {
                let name = *r.pick(&["hello", "my_project", "my-proj", "A1", "1bad", "bad name", "", "ünï", "x", "bad/slash", "-a"]);
                let root = *r.pick(&[
                    "file:///w/new", "file:///w/new/", "file:///w/sp%20ace/x", "untitled:foo", "not a url", "file:///w/p0", "file:///w/new/d1/d2",
                    "file:///w/%C3%BCn%C3%AF/n/", "file:///w/new.d/a.b",
                ]);
                let args = match r.below(12) {
                    0 => json!([]),
                    1 => json!([{"name": name}]),
                    2 => json!([{"root": root}]),
                    3 => json!(["x"]),
                    _ => json!([{"name": name, "root": root}]),
                };
                let id = self.id();
                self.send(
                    op.k,
                    request(id, "workspace/executeCommand", json!({"command": "createProject", "arguments": args})),
                    None,
                    None,
                    f,
                );
            }
            K::CmdMigrate => {
                let uri = self.target(&mut r);
                let args = match r.below(16) {
                    0 => json!([]),
                    1 => json!([{"uri": 5}]),
                    _ => json!([{"uri": uri}]),
                };
                let id = self.id();
                self.send(
                    op.k,
                    request(id, "workspace/executeCommand", json!({"command": "migrateProject", "arguments": args})),
                    Some(uri),
                    None,
                    f,
                );
            }
            K::CmdExtract => {
                let uri = self.target(&mut r);
                let (a, b) = match self.docs.get(&uri) {
                    Some(d) => event_range(&mut r, &d.text),
                    None => (0, 0),
                };
                let args = match r.below(24) {
                    0 => json!([]),
                    1 => json!([{"uri": uri}]),
                    2 => json!([{"uri": uri, "range": {"start": -1, "end": "x"}}]),
                    _ => json!([{"uri": uri, "range": {"start": a, "end": b}}]),
                };
                let id = self.id();
                self.send(
                    op.k,
                    request(id, "workspace/executeCommand", json!({"command": "extractEvent", "arguments": args})),
                    Some(uri),
                    Some((a, b)),
                    f,
                );
            }
            K::CmdOdd => {
                let id = self.id();
                let p = match r.below(3) {
                    0 => json!({"command": "noSuchCommand", "arguments": []}),
                    1 => json!({"command": "", "arguments": [null]}),
                    _ => json!({"command": "createproject", "arguments": [{"name": "a", "root": "file:///w/new"}]}),
                };
                self.send(op.k, request(id, "workspace/executeCommand", p), None, None, f);
            }
            K::BadParams => {
                let method = *r.pick(&[
                    "textDocument/completion", "textDocument/hover", "textDocument/codeAction", "textDocument/inlayHint",
                    "textDocument/signatureHelp", "workspace/executeCommand", "codeAction/resolve",
                ]);
                let uri = self.target(&mut r);
                let p = match r.below(7) {
                    0 => Value::Null,
                    1 => json!([]),
                    2 => json!({"textDocument": {"uri": "not a uri"}, "position": {"line": 0, "character": 0}}),
                    3 => json!({"textDocument": {"uri": uri}, "position": {"line": -1, "character": 0}}),
                    4 => json!({"textDocument": {"uri": uri}, "position": {"line": 4294967296u64, "character": 0}}),
                    5 => json!("x"),
                    _ => json!({"command": 5, "title": null}),
                };
                let id = self.id();
                self.send(op.k, request(id, method, p), None, None, f);
            }
            K::UnknownMethod => {
                let method = *r.pick(&[
                    "textDocument/definition", "textDocument/formatting", "workspace/symbol", "", "initialize",
                    "textDocument/didOpen", "$/unknown", "completionItem/resolve", "textDocument/Completion",
                ]);
                let uri = self.target(&mut r);
                let id = self.id();
                self.send(
                    op.k,
                    request(id, method, json!({"textDocument": {"uri": uri}, "position": {"line": 0, "character": 0}})),
                    None,
                    None,
                    f,
                );
            }
            K::OutOfRange => self.out_of_range(&mut r, f),
            K::Answer => self.answer(&mut r, f),
            K::StrayResponse => {
                let id = match r.below(8) {
                    0 => RequestId::from(99_999),
                    1 => RequestId::from("migrate-project::file:///w/p0/lib.rs".to_owned()),
                    2 => RequestId::from("show-document::file:///w/x.rs".to_owned()),
                    3 => RequestId::from("extract-event::file:///w/p0/lib.rstransfer".to_owned()),
                    4 => RequestId::from(self.next_id),
                    5 => RequestId::from(String::new()),
                    // The answer to an earlier request once more.
                    6 if !self.answered.is_empty() => r.pick(&self.answered).clone(),
                    _ => RequestId::from("whatever".to_owned()),
                };
                let m = match r.below(5) {
                    0 => Message::Response(lsp_server::Response::new_err(id, -32603, "client failed".to_owned())),
                    1 => Message::Response(lsp_server::Response {
                        id,
                        result: None,
                        error: None,
                    }),
                    2 => Message::Response(lsp_server::Response {
                        id,
                        result: Some(json!({"applied": "yes", "success": 1})),
                        error: None,
                    }),
                    _ => Message::Response(lsp_server::Response {
                        id,
                        result: Some(json!({"applied": true})),
                        error: None,
                    }),
                };
                self.send(op.k, m, None, None, f);
            }
            K::DiskManifest => {
                let path = *r.pick(MANIFESTS);
                let lang = if r.chance(1, 2) { Lang::V4 } else { Lang::V5 };
                let text = op.text.clone().unwrap_or_else(|| disk_manifest(&mut r, path, lang));
                self.write_disk(path, Some(&text));
            }
            K::DiskDelete => {
                let path = *r.pick(MANIFESTS);
                self.write_disk(path, None);
            }
            K::DiskEventDir => {
                let dir = *r.pick(&["transfer", "approval", "flipped", "http-event", "my-event", "e1", "transfer1", "transfer2", "transfer9", "event-2", "x"]);
                let base = *r.pick(&["/w/p0", "/w/p1", "/w/ws/a"]);
                // Mostly where an event of an open document would go.
                let near: Vec<(String, String)> = self
                    .docs
                    .iter()
                    .filter_map(|(u, d)| {
                        let base = ["/w/p0", "/w/p1", "/w/ws/a"].into_iter().find(|b| u.starts_with(&format!("file://{b}/")))?;
                        let at = d.text.find("#[ink(event")?;
                        let name = d.text[at..].split("struct ").nth(1)?.split(|c: char| !c.is_alphanumeric() && c != '_').next()?;
                        let mut dir = String::new();
                        for c in name.chars() {
                            if c.is_uppercase() && !dir.is_empty() {
                                dir.push('-');
                            }
                            dir.extend(c.to_lowercase());
                        }
                        (!dir.is_empty()).then(|| (base.to_owned(), dir))
                    })
                    .collect();
                let (base, dir) = if !near.is_empty() && r.chance(2, 3) {
                    r.pick(&near).clone()
                } else {
                    (base.to_owned(), dir.to_owned())
                };
                let p = match r.below(4) {
                    // A file has the name the package would get.
                    0 => format!("{base}/{dir}"),
                    _ => format!("{base}/{dir}/README.md"),
                };
                self.write_disk(&p, Some("precious"));
                if r.chance(1, 4) {
                    // A directory the package would be put into, or all of them.
                    for i in 1..=r.range(1, 11) {
                        self.write_disk(&format!("{base}/{dir}{i}/README.md"), Some("precious"));
                    }
                }
            }
            K::ClockJump => {
                let ns = *r.pick(&[1_000_000_000i64, 60_000_000_000, -3_600_000_000_000, 86_400_000_000_000, 31_000_000_000]);
                seam::advance_clock(ns);
                self.sim_ns += ns.abs();
                if let Some(s) = &self.server {
                    s.poke();
                }
                *self.fault_counts.entry("clock jump".to_owned()).or_default() += 1;
                self.note(format!("clock {ns}"));
            }
            K::Crash => {
                *self.fault_counts.entry("server crash + restart".to_owned()).or_default() += 1;
                let docs = self.docs.clone();
                self.note("crash".to_owned());
                // Optionally with a request in flight whose answer is lost.
                if r.chance(1, 2) {
                    if let (Some(uri), Some(s)) = (self.open_uri(&mut r), self.server.as_mut()) {
                        let id = RequestId::from(format!("lost{}", self.next_id));
                        let m = request(id, "textDocument/inlayHint", json!({"textDocument": {"uri": uri}, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}}));
                        if s.next_move(None).is_ok() {
                            let _ = s.feed(m);
                        }
                    }
                }
                if !self.boot() {
                    return;
                }
                for (uri, d) in docs {
                    self.send(op.k, did_open(&uri, "rust", d.version, &d.text), Some(uri), None, &[]);
                    if self.dead.is_some() {
                        return;
                    }
                }
            }
        }
    }

    pub fn position_request(&mut self, k: K, uri: &str, off: usize, f: &[Fault], r: &mut Rng) -> usize {
        let text = self.docs.get(uri).map(|d| d.text.clone()).unwrap_or_default();
        let p = pos::to_pos(&text, off, self.enc);
        let mut params = json!({"textDocument": {"uri": uri}, "position": p.json()});
        let method = match k {
            K::Completion => "textDocument/completion",
            K::Hover => "textDocument/hover",
            _ => "textDocument/signatureHelp",
        };
        if k == K::SigHelp && r.chance(1, 3) {
            params["context"] = json!({"triggerKind": 1, "isRetrigger": true, "activeSignatureHelp": {
                "signatures": [{"label": "a"}, {"label": "selector: u32 | _"}, {"label": "env: impl Environment"}],
                "activeSignature": r.below(5), "activeParameter": 0}});
        }
        let id = self.id();
        let step = self.send(k, request(id, method, params), Some(uri.to_owned()), Some((off, off)), f);
        if k == K::Completion {
            if let Some(Message::Response(resp)) = self.steps[step].outputs.first() {
                let items = resp
                    .result
                    .as_ref()
                    .and_then(|v| v.get("items"))
                    .and_then(Value::as_array)
                    .cloned()
                    .unwrap_or_default();
                self.completions = Some((uri.to_owned(), text, items));
            }
        }
        step
    }

    pub fn range_request(&mut self, k: K, uri: &str, a: usize, b: usize, f: &[Fault]) -> usize {
        let text = self.docs.get(uri).map(|d| d.text.clone()).unwrap_or_default();
        let range = pos::range_json(&text, a, b, self.enc);
        let (method, params) = if k == K::CodeAction {
            (
                "textDocument/codeAction",
                json!({"textDocument": {"uri": uri}, "range": range, "context": {"diagnostics": []}}),
            )
        } else {
            (
                "textDocument/inlayHint",
                json!({"textDocument": {"uri": uri}, "range": range}),
            )
        };
        let id = self.id();
        let step = self.send(k, request(id, method, params), Some(uri.to_owned()), Some((a, b)), f);
        if k == K::CodeAction {
            if let Some(Message::Response(resp)) = self.steps[step].outputs.first() {
                for action in resp.result.as_ref().and_then(Value::as_array).into_iter().flatten() {
                    self.offered.push(OfferedAction {
                        action: action.clone(),
                        uri: uri.to_owned(),
                        text: text.clone(),
                        step,
                    });
                }
                let n = self.offered.len();
                if n > 400 {
                    self.offered.drain(..n - 400);
                }
            }
        }
        step
    }

    fn out_of_range(&mut self, r: &mut Rng, f: &[Fault]) {
        let uri = self.target(r);
        let lines = self.docs.get(&uri).map_or(0, |d| d.text.matches('\n').count() as u32);
        let odd = |r: &mut Rng| -> Pos {
            let line = match r.below(5) {
                0 => lines,
                1 => lines + 1,
                2 => lines.saturating_sub(1),
                3 => r.below(lines as usize + 1) as u32,
                _ => *r.pick(&[0, 100_000, u32::MAX, i32::MAX as u32]),
            };
            let col = match r.below(5) {
                0 => r.below(400) as u32,
                1 => 10_000,
                2 => *r.pick(&[u32::MAX, u32::MAX - 1, i32::MAX as u32]),
                3 => 0,
                _ => r.below(80) as u32,
            };
            Pos { line, col }
        };
        let a = odd(r);
        let b = odd(r);
        let id = self.id();
        let (method, params) = match r.below(7) {
            0 => ("textDocument/completion", json!({"textDocument": {"uri": uri}, "position": a.json()})),
            1 => ("textDocument/hover", json!({"textDocument": {"uri": uri}, "position": a.json()})),
            2 => ("textDocument/signatureHelp", json!({"textDocument": {"uri": uri}, "position": a.json()})),
            3 => (
                "textDocument/codeAction",
                json!({"textDocument": {"uri": uri}, "range": {"start": a.json(), "end": b.json()}, "context": {"diagnostics": []}}),
            ),
            4 => (
                "textDocument/inlayHint",
                json!({"textDocument": {"uri": uri}, "range": {"start": a.json(), "end": b.json()}}),
            ),
            n => {
                let len = self.docs.get(&uri).map_or(10, |d| d.text.len()) as u64;
                let num = |r: &mut Rng| match r.below(6) {
                    0 => len,
                    1 => len + 1,
                    2 => u64::from(u32::MAX),
                    3 => u64::from(u32::MAX) + 1 + r.below(100) as u64,
                    4 => u64::MAX,
                    _ => r.below(len as usize + 1) as u64,
                };
                let mut range = json!({"start": num(r), "end": num(r)});
                let event = self.docs.get(&uri).and_then(|d| d.text.find("#[ink(event)]"));
                if let (Some(at), true) = (event, r.chance(1, 2)) {
                    // The right place, the wrong way round.
                    let (a, b) = (at as u64 + r.below(14) as u64, at as u64 + 14 + r.below(16) as u64);
                    range = json!({"start": b.min(len), "end": a.min(len)});
                }
                if n == 5 {
                    (
                        "workspace/executeCommand",
                        json!({"command": "extractEvent", "arguments": [{"uri": uri, "range": range}]}),
                    )
                } else {
                    (
                        "codeAction/resolve",
                        json!({"title": "t", "data": {"command": "extractEvent", "uri": uri, "range": range}}),
                    )
                }
            }
        };
        self.send(K::OutOfRange, request(id, method, params), Some(uri), None, f);
    }

    /// The editor handles the oldest request the server made.
    fn answer(&mut self, r: &mut Rng, f: &[Fault]) {
        if self.pending.is_empty() {
            return;
        }
        // Mostly in order, but nothing obliges the editor to.
        let at = if r.chance(1, 3) { r.below(self.pending.len()) } else { 0 };
        let req = self.pending.remove(at);
        self.answered.push(req.id.clone());
        let mode = r.weighted(&[6, 2, 2]);
        if req.method != "workspace/applyEdit" || mode != 0 {
            let m = match mode {
                0 => Message::Response(lsp_server::Response {
                    id: req.id,
                    result: Some(json!({"success": true})),
                    error: None,
                }),
                1 => Message::Response(lsp_server::Response {
                    id: req.id,
                    result: Some(json!({"applied": false, "failureReason": "user said no"})),
                    error: None,
                }),
                _ => Message::Response(lsp_server::Response::new_err(req.id, -32603, "client failed".to_owned())),
            };
            self.send(K::Answer, m, None, None, f);
            return;
        }
        let changed = self.apply_workspace_edit(&req.params["edit"]);
        let resp = Message::Response(lsp_server::Response {
            id: req.id,
            result: Some(json!({"applied": true})),
            error: None,
        });
        let first = r.chance(1, 2);
        if first {
            self.send(K::Answer, resp.clone(), None, None, f);
        }
        for (uri, text) in changed {
            if self.dead.is_some() {
                return;
            }
            let v = self.version(r);
            self.did_change(K::Answer, &uri, &text, v, &[]);
        }
        if !first {
            self.send(K::Answer, resp, None, None, f);
        }
    }

    /// Applies a workspace edit to open documents and the disk; returns changed open documents.
    pub fn apply_workspace_edit(&mut self, edit: &Value) -> Vec<(String, String)> {
        let mut changed = vec![];
        let mut per_file: Vec<(String, Value)> = vec![];
        if let Some(map) = edit.get("changes").and_then(Value::as_object) {
            for (uri, edits) in map {
                per_file.push((uri.clone(), edits.clone()));
            }
        }
        if let Some(list) = edit.get("documentChanges").and_then(Value::as_array) {
            for c in list {
                if c.get("kind") == Some(&json!("create")) {
                    let uri = c["uri"].as_str().unwrap_or_default();
                    if let Some(p) = uri_path(uri) {
                        let real = seam::under(&self.root, &p);
                        if !real.exists() {
                            let p = p.to_string_lossy().into_owned();
                            self.write_disk(&p, Some(""));
                        }
                    }
                } else if let Some(uri) = c["textDocument"]["uri"].as_str() {
                    per_file.push((uri.to_owned(), c["edits"].clone()));
                }
            }
        }
        for (uri, edits) in per_file {
            let text = match self.docs.get(&uri) {
                Some(d) => d.text.clone(),
                None => match uri_path(&uri) {
                    Some(p) => std::fs::read_to_string(seam::under(&self.root, &p)).unwrap_or_default(),
                    None => continue,
                },
            };
            let Ok(parsed) = pos::parse_edits(&text, &edits, self.enc) else {
                continue;
            };
            let Ok(new) = pos::apply_edits(&text, &parsed) else {
                continue;
            };
            if self.docs.contains_key(&uri) {
                changed.push((uri, new));
            } else if let Some(p) = uri_path(&uri) {
                let p = p.to_string_lossy().into_owned();
                self.write_disk(&p, Some(&new));
            }
        }
        changed
    }
}

pub fn transparent(f: &Fault) -> bool {
    matches!(f.kind, FaultKind::ShortRead(_) | FaultKind::Interrupted)
}

pub fn fault_name(f: &Fault) -> String {
    let class = match f.class {
        OpClass::Any => "any",
        OpClass::Stat => "stat",
        OpClass::Open => "open",
        OpClass::Read => "read",
    };
    let kind = match &f.kind {
        FaultKind::Errno(e) => match *e {
            libc::EIO => "EIO".to_owned(),
            libc::EACCES => "EACCES".to_owned(),
            libc::ENOENT => "ENOENT".to_owned(),
            libc::EMFILE => "EMFILE".to_owned(),
            libc::ENOMEM => "ENOMEM".to_owned(),
            libc::ESTALE => "ESTALE".to_owned(),
            e => format!("errno {e}"),
        },
        FaultKind::ShortRead(_) => "short read".to_owned(),
        FaultKind::Interrupted => "EINTR".to_owned(),
        FaultKind::Replace { .. } => "concurrent replace".to_owned(),
        FaultKind::Delete { .. } => "concurrent delete".to_owned(),
        FaultKind::Garble => "invalid UTF-8".to_owned(),
        FaultKind::Truncate => "premature EOF".to_owned(),
    };
    format!("fs {class}: {kind}")
}

pub fn disk_manifest(r: &mut Rng, path: &str, lang: Lang) -> String {
    match path {
        "/w/ws/Cargo.toml" => match r.below(4) {
            0 => gen::odd_manifest(r),
            _ => gen::workspace_root_manifest(r, lang),
        },
        "/w/ws/a/Cargo.toml" | "/w/ws/b/Cargo.toml" | "/w/ws/nested/group/c/Cargo.toml" => match r.below(4) {
            0 => gen::manifest(r, lang, true),
            1 => gen::odd_manifest(r),
            _ => gen::workspace_member_manifest(r),
        },
        _ => match r.below(5) {
            0 => gen::odd_manifest(r),
            1 => gen::manifest(r, lang, false),
            _ => gen::manifest(r, lang, true),
        },
    }
}

pub fn range_choice(r: &mut Rng, text: &str) -> (usize, usize) {
    match r.below(6) {
        0 => (0, text.len()),
        5 => gen::blank_range(r, text).unwrap_or((0, 0)),
        1 | 2 => {
            let a = gen::cursor(r, text);
            (a, a)
        }
        _ => {
            let a = gen::cursor(r, text);
            let b = gen::cursor(r, text);
            (a.min(b), a.max(b))
        }
    }
}

/// A byte range on (or near) an event definition.
pub fn event_range(r: &mut Rng, text: &str) -> (usize, usize) {
    let pats = ["#[ink(event", "#[ink::event", "struct "];
    let all: Vec<(usize, usize)> = pats
        .iter()
        .flat_map(|p| text.match_indices(p).map(|(i, s)| (i, i + s.len())))
        .collect();
    if all.is_empty() || r.chance(1, 12) {
        return range_choice(r, text);
    }
    let (a, b) = *r.pick(&all);
    match r.below(4) {
        0 => (a, a),
        1 => (a, b),
        2 => (a, crate::props2::struct_at(text, (a, a)).map_or(b, |x| x.1)),
        _ => {
            let m = pos::floor_boundary(text, a + r.below(b - a + 1));
            (m, m)
        }
    }
}

/// Documents whose diagnostics differ between ink! 4 and ink! 5 rules.
pub fn version_probe(r: &mut Rng) -> String {
    let body = *r.pick(&[
        "#[ink::event]\npub struct MyEvent {\n    #[ink(topic)]\n    a: u32,\n}\n",
        "#[ink::chain_extension]\npub trait Ext {\n    type ErrorCode = E;\n\n    #[ink(extension = 1)]\n    fn f();\n}\n",
        "#[ink::chain_extension(extension = 1)]\npub trait Ext {\n    type ErrorCode = E;\n\n    #[ink(function = 1)]\n    fn f();\n}\n",
        "#[ink::scale_derive(Encode)]\npub struct S;\n",
    ]);
    format!("// probe {}\n{body}", r.below(1000))
}

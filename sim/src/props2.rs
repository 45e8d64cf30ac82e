//! Monitors that close the loop: they apply what the server offers, on copies, and judge the result.

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

use lsp_server::Message;
use serde_json::{json, Value};

use crate::canon::canon;
use crate::gen::{self, Lang};
use crate::lex;
use crate::model;
use crate::pos::{self, Enc, Pos};
use crate::props::*;
use crate::seam;
use crate::world::{self, path_uri, uri_path, ModelDoc, Step, World};

/// A workspace edit in one shape, whichever way the server delivered it.
#[derive(Clone, Debug, Default)]
pub struct WEdit {
    /// Files to create, with their content.
    pub files: BTreeMap<String, String>,
    /// Text edits of existing files.
    pub edits: BTreeMap<String, Value>,
    pub via: &'static str,
}

/// The edit a command or resolution resulted in; `Err` when it is malformed.
pub fn workspace_edit(s: &Step) -> Option<Result<WEdit, String>> {
    for r in server_requests(s) {
        if r.method == "workspace/applyEdit" {
            return Some(shape(&r.params["edit"], "applyEdit"));
        }
    }
    let v = result(s)?;
    if method(s) == "codeAction/resolve" {
        return v.get("edit").map(|e| shape(e, "resolve"));
    }
    if v.get("edits").is_some() || v.get("files").is_some() {
        let mut w = WEdit {
            via: "response",
            ..Default::default()
        };
        for (u, t) in v["files"].as_object().into_iter().flatten() {
            let Some(t) = t.as_str() else {
                return Some(Err(format!("file {u} without content")));
            };
            w.files.insert(u.clone(), t.to_owned());
        }
        for (u, e) in v["edits"].as_object().into_iter().flatten() {
            w.edits.insert(u.clone(), e.clone());
        }
        return Some(Ok(w));
    }
    None
}

fn shape(edit: &Value, via: &'static str) -> Result<WEdit, String> {
    let mut w = WEdit {
        via,
        ..Default::default()
    };
    for (u, e) in edit["changes"].as_object().into_iter().flatten() {
        w.edits.insert(u.clone(), e.clone());
    }
    for c in edit["documentChanges"].as_array().into_iter().flatten() {
        if c["kind"] == "create" {
            let u = c["uri"].as_str().unwrap_or_default().to_owned();
            if w.files.insert(u.clone(), String::new()).is_some() {
                return Err(format!("{u} created twice"));
            }
            if c["options"]["overwrite"] == true {
                return Err(format!("{u} would be overwritten"));
            }
        } else if let Some(u) = c["textDocument"]["uri"].as_str() {
            if let Some(text) = w.files.get_mut(u) {
                let parsed = pos::parse_edits(text, &c["edits"], Enc::Utf16).map_err(|e| format!("{u}: {e}"))?;
                *text = pos::apply_edits(text, &parsed).map_err(|e| format!("{u}: {e}"))?;
            } else if w.edits.insert(u.to_owned(), c["edits"].clone()).is_some() {
                return Err(format!("{u} edited twice"));
            }
        } else {
            return Err(format!("unknown document change {c}"));
        }
    }
    Ok(w)
}

pub fn disk_text(w: &World, uri: &str) -> Option<String> {
    let p = uri_path(uri)?;
    std::fs::read_to_string(seam::under(&w.root, &p)).ok()
}

/// Text a client would apply edits for this URI to.
pub fn base_text(w: &World, s: &Step, uri: &str) -> Option<String> {
    match s.docs_before.get(uri) {
        Some(d) => Some(d.text.clone()),
        None => disk_text(w, uri),
    }
}

pub fn nearest_manifest(w: &World, uri: &str) -> Option<(PathBuf, String)> {
    let p = w.manifest_chain_paths(uri).into_iter().next()?;
    let t = std::fs::read_to_string(seam::under(&w.root, &p)).ok()?;
    Some((p, t))
}

pub fn apply(text: &str, edits: &Value, enc: Enc) -> Result<String, String> {
    let parsed = pos::parse_edits(text, edits, enc)?;
    pos::apply_edits(text, &parsed)
}

fn errors(text: &str, lang: Lang) -> Option<Vec<String>> {
    Some(
        model::raw_diagnostics(text, lang)?
            .into_iter()
            .filter(|d| d.error)
            .map(|d| d.message)
            .collect(),
    )
}

// ---------------------------------------------------------------------------------------------
// P09: migration.

/// Everything in a manifest migration must leave alone.
fn manifest_rest(t: &toml::Table, old: &toml::Table) -> toml::Table {
    let had = old.get("dependencies").and_then(|d| d.get("ink")).and_then(|i| i.get("default-features")).is_some();
    let mut t = t.clone();
    if let Some(toml::Value::Table(d)) = t.get_mut("dependencies") {
        if let Some(toml::Value::Table(ink)) = d.get_mut("ink") {
            let mut ink = ink.clone();
            ink.remove("version");
            if !had {
                ink.remove("default-features");
            }
            d.insert("ink".to_owned(), toml::Value::Table(ink));
        } else if d.contains_key("ink") {
            d.insert("ink".to_owned(), toml::Value::Table(Default::default()));
        }
        d.remove("scale");
        d.remove("scale-info");
    }
    if let Some(toml::Value::Table(d)) = t.get_mut("dev-dependencies") {
        if d.contains_key("ink_e2e") {
            d.insert("ink_e2e".to_owned(), toml::Value::Boolean(true));
        }
    }
    if let Some(toml::Value::Table(f)) = t.get_mut("features") {
        if let Some(toml::Value::Array(a)) = f.get_mut("std") {
            a.retain(|x| !matches!(x.as_str(), Some("scale/std" | "scale-info/std")));
        }
    }
    t
}

fn comments_of(manifest: &str) -> Vec<String> {
    let mut v: Vec<String> = manifest
        .lines()
        .filter(|l| !l.trim_start().starts_with("ink") && !l.trim_start().starts_with("scale"))
        .filter_map(|l| l.find('#').map(|i| l[i..].trim().to_owned()))
        .collect();
    v.sort();
    v
}

/// Undoes the renaming of functions that call other contracts.
fn host_fns(t: &mut Vec<String>) {
    while let Some(i) = t.windows(4).position(|x| x[0] == "." && x[1] == "instantiate_v1" && x[2] == "(" && x[3] == ")") {
        t.drain(i..i + 4);
    }
    for x in t.iter_mut() {
        match x.as_str() {
            "call_v1" | "invoke_contract_v1" | "instantiate_contract_v1" => x.truncate(x.len() - 3),
            "CallV1" | "CallAlias" => x.truncate(4),
            _ => (),
        }
    }
    // It may be named by another path.
    let mut i = 0;
    while i < t.len() {
        if t[i] == "Call" {
            while i > 1 && t[i - 1] == ":" && t[i - 2] == ":" {
                t.drain(i - 2..i);
                i -= 2;
                if i > 0 && t[i - 1].starts_with(|c: char| c.is_alphabetic() || c == '_') {
                    t.remove(i - 1);
                    i -= 1;
                }
            }
        }
        i += 1;
    }
}

pub struct P09;
impl P09 {
    fn judge(&self, w: &World, s: &Step, uri: &str, doc: &ModelDoc, lang: Lang, cov: &mut Cov) -> Result<(), Viol> {
        let manifest = nearest_manifest(w, uri);
        let table = manifest.as_ref().and_then(|(_, t)| t.parse::<toml::Table>().ok());
        let dep = table
            .as_ref()
            .and_then(|t| t.get("dependencies"))
            .and_then(toml::Value::as_table)
            .and_then(|d| d.get("ink"))
            .cloned();
        let Some(edit) = workspace_edit(s) else {
            // Refusing is right when there is nothing that can be migrated.
            let usable = uri.starts_with("file://") && uri.ends_with(".rs") && dep.is_some();
            let err = response(s).and_then(|r| r.error.as_ref()).map(|e| e.message.clone());
            if usable && (result(s).is_some() || err.is_some()) {
                return viol(
                    "migration refused",
                    format!("{} with manifest {:?}: {:?}", show(&s.input), manifest.map(|m| m.1), err),
                );
            }
            cov.judged(false, "");
            return Ok(());
        };
        let edit = match edit {
            Ok(e) => e,
            Err(e) => return viol("malformed migration edit", e),
        };
        let Some((mpath, mtext)) = manifest else {
            return viol("migration without a manifest", format!("{edit:?}"));
        };
        let muri = path_uri(&mpath);
        let targets: Vec<&String> = edit.edits.keys().collect();
        if !edit.files.is_empty() || edit.edits.len() != 2 || !edit.edits.contains_key(uri) || !edit.edits.contains_key(&muri) {
            return viol(
                "migration touches other files",
                format!("expected {uri} and {muri}, got {targets:?} and new files {:?}", edit.files.keys()),
            );
        }
        let pristine = w.pristine.contains(&crate::rng::fnv(doc.text.as_bytes()));
        let new_code = match apply(&doc.text, &edit.edits[uri], w.enc) {
            Ok(t) => t,
            // What error recovery makes of a document that is not a Rust file is anybody's guess.
            Err(_) if !pristine => {
                cov.judged(false, "");
                return Ok(());
            }
            Err(e) => return viol("migration edits of the contract cannot be applied", format!("{e}; edits {} text {:?}", edit.edits[uri], doc.text)),
        };
        let mbase = s.docs_before.get(&muri).map_or(mtext, |d| d.text.clone());
        let new_manifest = match apply(&mbase, &edit.edits[&muri], w.enc) {
            Ok(t) => t,
            Err(e) => return viol("migration edits of the manifest cannot be applied", format!("{e}; edits {} text {mbase:?}", edit.edits[&muri])),
        };
        // Manifest.
        let old = table.unwrap_or_default();
        let Ok(new) = new_manifest.parse::<toml::Table>() else {
            return viol("migrated manifest is not TOML", format!("{mbase:?} -> {new_manifest:?}"));
        };
        let inherited = dep.as_ref().and_then(|d| d.get("workspace")).is_some();
        if !inherited && gen::project_lang(&[new_manifest.clone()]) != Lang::V5 {
            return viol("migrated manifest does not select ink! 5", format!("{mbase:?} -> {new_manifest:?}"));
        }
        let deps = new.get("dependencies").and_then(toml::Value::as_table).cloned().unwrap_or_default();
        if deps.contains_key("scale") || deps.contains_key("scale-info") {
            return viol("migrated manifest keeps scale dependencies", format!("{mbase:?} -> {new_manifest:?}"));
        }
        let std = new.get("features").and_then(|f| f.get("std")).and_then(toml::Value::as_array).cloned().unwrap_or_default();
        if std.iter().any(|x| matches!(x.as_str(), Some("scale/std" | "scale-info/std"))) {
            return viol("migrated manifest keeps features of removed dependencies", format!("{mbase:?} -> {new_manifest:?}"));
        }
        if let Some(e2e) = new.get("dev-dependencies").and_then(|d| d.get("ink_e2e")) {
            let v = e2e.as_str().or_else(|| e2e.get("version").and_then(toml::Value::as_str)).unwrap_or_default();
            if gen::req_lang(v) != Lang::V5 {
                return viol("migrated manifest keeps the old e2e crate", format!("{mbase:?} -> {new_manifest:?}"));
            }
        }
        if manifest_rest(&old, &old) != manifest_rest(&new, &old) {
            return viol("migration changes unrelated manifest entries", format!("{mbase:?} -> {new_manifest:?}"));
        }
        if comments_of(&mbase) != comments_of(&new_manifest) {
            return viol("migration loses manifest comments", format!("{mbase:?} -> {new_manifest:?}"));
        }
        // Code.
        let mut note = String::new();
        let old_lex = lex::lex(&doc.text);
        if lang == Lang::V4 && pristine && errors(&doc.text, Lang::V4).is_some_and(|e| e.is_empty()) && doc.text.contains("#[ink::contract") {
            let after = errors(&new_code, Lang::V5).unwrap_or_default();
            if !after.is_empty() {
                return viol(
                    "migrated contract has ink! 5 errors",
                    format!("{after:?}\nbefore:\n{}\nafter:\n{new_code}", doc.text),
                );
            }
            note.push_str(" clean");
            if let Some(again) = model::migrate_edits(&new_code, Lang::V5, w.enc) {
                if again != json!([]) {
                    return viol("migration is not idempotent", format!("{again} on:\n{new_code}"));
                }
            }
            let new_lex = lex::lex(&new_code);
            // Chain extensions get ids of their own.
            let ids: Vec<&str> = new_code
                .split("chain_extension(")
                .skip(1)
                .filter_map(|x| x.split(')').next()?.split("extension").nth(1)?.split('=').nth(1)?.split(',').next())
                .map(str::trim)
                .collect();
            if ids.iter().collect::<BTreeSet<_>>().len() != ids.len() {
                return viol("migration gives chain extensions the same id", format!("{ids:?}\nbefore:\n{}\nafter:\n{new_code}", doc.text));
            }
            if !new_lex.balanced {
                return viol("migrated contract has unbalanced brackets", format!("before:\n{}\nafter:\n{new_code}", doc.text));
            }
            let (old_rest, old_e2e) = lex::split_mod(&old_lex.flat, "e2e_tests");
            let (new_rest, new_e2e) = lex::split_mod(&new_lex.flat, "e2e_tests");
            let free = |f: &[(bool, String)]| !f.iter().any(|t| t.1.contains("ink_e2e"));
            if free(&old_rest) {
                // Nothing but attributes and calls to other contracts changes; events move and are imported.
                let plain = |f: &[(bool, String)]| -> Vec<String> {
                    f.iter().filter(|t| !t.0 && t.1 != ",").map(|t| t.1.clone()).collect()
                };
                let mut a = plain(&old_rest);
                let mut b = plain(&new_rest);
                let mut moved: BTreeSet<String> = BTreeSet::new();
                let imports = b
                    .windows(6)
                    .enumerate()
                    .filter(|(_, x)| x[0] == "use" && x[1] == "super" && x[2] == ":" && x[3] == ":" && x[5] == ";")
                    .map(|(i, _)| i)
                    .collect::<Vec<_>>();
                for i in imports.into_iter().rev() {
                    let name = b[i + 4].clone();
                    if old_lex.tokens.windows(2).any(|x| x[0] == "struct" && x[1] == name) {
                        b.drain(i..i + 6);
                        moved.insert(name);
                    }
                }
                let mut stale = vec![];
                for x in b.windows(2) {
                    if x[0] == "." && (x[1] == "invoke_contract" || x[1] == "instantiate_contract") {
                        stale.push(x[1].clone());
                    }
                }
                let count = |v: &[String], t: &str| v.iter().filter(|x| *x == t).count();
                let lets = |t: &str| b.windows(3).filter(|x| x[0] == "let" && x[1] == t && x[2] == "=").count();
                if lets("_c") != count(&b, "instantiate_v1") {
                    stale.push("build_create".to_owned());
                }
                if lets("_r") != count(&b, "call_v1") {
                    stale.push("build_call".to_owned());
                }
                if lets("_ct") != count(&b, "CallV1") {
                    stale.push("Call".to_owned());
                }
                if lets("_x") != b.windows(2).filter(|x| x[0] != "." && x[1] == "invoke_contract_v1").count() {
                    stale.push("invoke_contract".to_owned());
                }
                if lets("_y") != b.windows(2).filter(|x| x[0] != "." && x[1] == "instantiate_contract_v1").count() {
                    stale.push("instantiate_contract".to_owned());
                }
                if !stale.is_empty() {
                    return viol("migration leaves calls to other contracts behind", format!("{stale:?}\nbefore:\n{}\nafter:\n{new_code}", doc.text));
                }
                host_fns(&mut a);
                host_fns(&mut b);
                // Events move as they are; everything else stays where it is.
                let strip = |v: &[String]| -> Vec<String> { v.iter().filter(|t| !lex::is_comment(t)).cloned().collect() };
                let (mut sa, mut sb) = (strip(&a), strip(&b));
                let mut shuffled = None;
                for name in &moved {
                    let (ia, ra) = lex::cut_struct(&sa, name);
                    let (ib, rb) = lex::cut_struct(&sb, name);
                    if ia.len() == 1 && ia != ib {
                        shuffled = Some(format!("event {name}: {ia:?} -> {ib:?}"));
                    }
                    (sa, sb) = (ra, rb);
                }
                if sa != sb {
                    let at = sa.iter().zip(&sb).take_while(|(x, y)| x == y).count();
                    let from = at.saturating_sub(5);
                    shuffled.get_or_insert(format!(
                        "{:?} -> {:?}",
                        sa.iter().skip(from).take(20).collect::<Vec<_>>(),
                        sb.iter().skip(from).take(20).collect::<Vec<_>>()
                    ));
                }
                a.sort();
                b.sort();
                if a != b {
                    let gone: Vec<&String> = a.iter().filter(|t| !b.contains(t)).collect();
                    let come: Vec<&String> = b.iter().filter(|t| !a.contains(t)).collect();
                    return viol(
                        "migration changes code that is not an attribute",
                        format!("lost {gone:?} gained {come:?}\nbefore:\n{}\nafter:\n{new_code}", doc.text),
                    );
                }
                if let Some(what) = shuffled {
                    return viol("migration rearranges code", format!("{what}\nbefore:\n{}\nafter:\n{new_code}", doc.text));
                }
                // What the attributes say about each item stays.
                let a = lex::facts(&old_rest);
                let b = lex::facts(&new_rest);
                if a != b {
                    let gone: Vec<_> = a.iter().filter(|t| !b.contains(t)).collect();
                    let come: Vec<_> = b.iter().filter(|t| !a.contains(t)).collect();
                    return viol(
                        "migration changes what attributes say",
                        format!("lost {gone:?} gained {come:?}\nbefore:\n{}\nafter:\n{new_code}", doc.text),
                    );
                }
                note.push_str(" conserved");
            }
            // End-to-end tests keep everything but the parts of their API that changed.
            let words = |f: &[(bool, String)]| -> BTreeSet<String> {
                f.iter()
                    .filter(|t| !t.0 && t.1.starts_with(|c: char| c.is_alphanumeric() || c == '_' || c == '"' || c == '/'))
                    .map(|t| t.1.clone())
                    .collect()
            };
            let (a, b) = (words(&old_e2e), words(&new_e2e));
            const GONE: &[&str] = &[
                "build_message", "MessageBuilder", "from_account_id", "call", "balance", "None", "Some", "Option", "0", "0u128", "C", "E", "c", "contract",
            ];
            const COME: &[&str] = &[
                "create_call_builder", "ContractsBackend", "ChainBackend", "E2EBackend", "Client", "mut", "client", "submit", "dry_run", "value",
                "storage_deposit_limit", "free_balance", "use", "ink_e2e",
            ];
            let gone: Vec<&String> = a.difference(&b).filter(|t| !GONE.contains(&t.as_str())).collect();
            let come: Vec<&String> = b.difference(&a).filter(|t| !COME.contains(&t.as_str())).collect();
            let generated = doc.text.contains("// scenario 0");
            if generated && (!gone.is_empty() || !come.is_empty()) {
                return viol(
                    "migration changes unrelated parts of end-to-end tests",
                    format!("lost {gone:?} gained {come:?}\nbefore:\n{}\nafter:\n{new_code}", doc.text),
                );
            }
        }
        if lang == Lang::V5 && pristine && errors(&doc.text, Lang::V5).is_some_and(|e| e.is_empty()) {
            if errors(&new_code, Lang::V5).is_some_and(|e| !e.is_empty()) {
                return viol("migrating an ink! 5 contract breaks it", format!("before:\n{}\nafter:\n{new_code}", doc.text));
            }
            if let Some(again) = model::migrate_edits(&new_code, Lang::V5, w.enc) {
                if again != json!([]) {
                    return viol("migration is not idempotent", format!("{again} on:\n{new_code}"));
                }
            }
        }
        cov.judged(new_code != doc.text, &format!("{} via {}{note}: {}", uri, edit.via, canon(&edit.edits[uri])));
        Ok(())
    }
}

impl Monitor for P09 {
    fn after(&mut self, w: &mut World, from: usize, cov: &mut Cov) -> Result<(), Viol> {
        for s in &w.steps[from..] {
            if s.stop.is_some() || opaque(s) {
                continue;
            }
            let Some(("migrateProject", arg)) = command(s) else {
                continue;
            };
            let uri = arg["uri"].as_str().unwrap_or_default();
            let Some(doc) = s.docs_before.get(uri) else {
                continue;
            };
            if doc.blurred || doc.langs.len() != 1 {
                continue;
            }
            let lang = *doc.langs.iter().next().expect("lang");
            self.judge(w, s, uri, doc, lang, cov)?;
        }
        Ok(())
    }
    fn judges(&self, s: &Step) -> bool {
        matches!(command(s), Some(("migrateProject", _)))
    }
}

// ---------------------------------------------------------------------------------------------
// P10: event extraction.

fn package_model(name: &str) -> Option<String> {
    if !name.chars().next()?.is_alphabetic() {
        return None;
    }
    Some(name.to_owned())
}

pub struct P10;
impl P10 {
    fn judge(&self, w: &World, s: &Step, uri: &str, doc: &ModelDoc, lang: Lang, range: (usize, usize), cov: &mut Cov) -> Result<(), Viol> {
        let manifest = nearest_manifest(w, uri);
        let table = manifest.as_ref().and_then(|(_, t)| t.parse::<toml::Table>().ok());
        let deps = table
            .as_ref()
            .and_then(|t| t.get("dependencies"))
            .and_then(toml::Value::as_table)
            .cloned();
        let found = model::extraction(&doc.text, lang, range.0, range.1, w.enc);
        let Some(edit) = workspace_edit(s) else {
            let err = response(s).and_then(|r| r.error.as_ref()).map(|e| e.message.clone());
            if let (Some(Some((name, ..))), Some(deps), Some((mpath, _))) = (&found, &deps, &manifest) {
                // It must be possible unless the name is unusable or taken.
                let dir = seam::under(&w.root, mpath.parent().unwrap_or(Path::new("/")));
                let taken = std::fs::read_dir(&dir)
                    .into_iter()
                    .flatten()
                    .flatten()
                    .filter(|e| squash(&e.file_name().to_string_lossy()).starts_with(&squash(name)))
                    .count();
                let dep_taken = deps.keys().any(|k| squash(k) == squash(name));
                if package_model(name).is_some() && taken < 11 && !dep_taken {
                    return viol(
                        "extraction refused",
                        format!("{}: {err:?}; {taken} similar names, manifest {:?}", show(&s.input), manifest),
                    );
                }
            }
            // An event that plainly is one, in a contract module, can be extracted.
            if let (Some((name, end)), Some(_), true) = (struct_at(&doc.text, range), &deps, w.pristine.contains(&crate::rng::fnv(doc.text.as_bytes()))) {
                let before = lex::lex(&doc.text[..range.0]).tokens;
                let depth = before.iter().filter(|t| *t == "{").count() as i64 - before.iter().filter(|t| *t == "}").count() as i64;
                let legacy = doc.text[range.0..].starts_with("#[ink(event");
                if range.1 <= end && depth == 1 && legacy == (lang == Lang::V4) && package_model(&name).is_some() && !matches!(found, Some(Some(_))) {
                    return viol("extraction of an event refused", format!("{}: {err:?}\n{}", show(&s.input), doc.text));
                }
            }
            cov.judged(false, "");
            return Ok(());
        };
        let edit = match edit {
            Ok(e) => e,
            Err(e) => return viol("malformed extraction edit", e),
        };
        let Some((mpath, mtext)) = manifest else {
            return viol("extraction without a manifest", format!("{edit:?}"));
        };
        let mdir = mpath.parent().unwrap_or(Path::new("/")).to_owned();
        let muri = path_uri(&mpath);
        if edit.edits.len() != 2 || !edit.edits.contains_key(uri) || !edit.edits.contains_key(&muri) {
            return viol("extraction edits other files", format!("expected {uri} and {muri}, got {:?}", edit.edits.keys()));
        }
        // New files: a fresh package next to the manifest.
        let mut pkg: Option<PathBuf> = None;
        let mut lib = None;
        let mut cargo = None;
        for (u, content) in &edit.files {
            let Some(p) = uri_path(u) else {
                return viol("extraction creates a file outside of the project", format!("new file {u}, project {mdir:?}"));
            };
            if p.components().any(|c| c == std::path::Component::ParentDir) || !p.starts_with(&mdir) || p == mdir {
                return viol("extraction creates a file outside of the project", format!("new file {u}, project {mdir:?}"));
            }
            let rel = p.strip_prefix(&mdir).expect("prefix");
            let dir = mdir.join(rel.components().next().expect("component"));
            if pkg.get_or_insert(dir.clone()) != &dir {
                return viol("extraction creates files in two packages", format!("{:?}", edit.files.keys()));
            }
            let inside = p.strip_prefix(&dir).expect("prefix");
            if inside == Path::new("src/lib.rs") {
                lib = Some(content.clone());
            } else if inside == Path::new("Cargo.toml") {
                cargo = Some(content.clone());
            } else {
                return viol("extraction creates an unexpected file", format!("{u}"));
            }
        }
        let (Some(pkg), Some(lib), Some(cargo)) = (pkg, lib, cargo) else {
            return viol("extraction does not create a package", format!("new files {:?}", edit.files.keys()));
        };
        if seam::under(&w.root, &pkg).exists() {
            return viol("extraction into an existing directory", format!("{pkg:?} exists"));
        }
        let dir_name = pkg.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default();
        // The new package's manifest.
        let Ok(pt) = cargo.parse::<toml::Table>() else {
            return viol("manifest of the extracted package is not TOML", cargo);
        };
        let pname = pt.get("package").and_then(|p| p.get("name")).and_then(toml::Value::as_str).unwrap_or_default().to_owned();
        if !valid_project_name(&pname) || gen::project_lang(&[cargo.clone()]) != Lang::V5 {
            return viol("manifest of the extracted package is not usable", cargo);
        }
        // The contract's manifest gains exactly one dependency.
        let new_manifest = match apply(&s.docs_before.get(&muri).map_or(mtext.clone(), |d| d.text.clone()), &edit.edits[&muri], w.enc) {
            Ok(t) => t,
            Err(e) => return viol("extraction edits of the manifest cannot be applied", format!("{e}: {} on {mtext:?}", edit.edits[&muri])),
        };
        let Ok(mut nt) = new_manifest.parse::<toml::Table>() else {
            return viol("manifest is not TOML after extraction", new_manifest);
        };
        let old = table.unwrap_or_default();
        let added = nt
            .get_mut("dependencies")
            .and_then(toml::Value::as_table_mut)
            .and_then(|d| d.remove(&pname));
        let path = added.as_ref().and_then(|d| d.get("path")).and_then(toml::Value::as_str);
        if nt != old || path != Some(dir_name.as_str()) {
            return viol(
                "extraction does not add exactly one dependency",
                format!("package {pname} in {dir_name}: {mtext:?} -> {new_manifest:?}"),
            );
        }
        if comments_of(&mtext) != comments_of(&new_manifest) {
            return viol("extraction loses manifest comments", format!("{mtext:?} -> {new_manifest:?}"));
        }
        // The contract.
        let new_code = match apply(&doc.text, &edit.edits[uri], w.enc) {
            Ok(t) => t,
            Err(e) => return viol("extraction edits of the contract cannot be applied", format!("{e}: {} on {:?}", edit.edits[uri], doc.text)),
        };
        let a = lex::lex(&doc.text);
        let n = lex::lex(&new_code);
        let l = lex::lex(&lib);
        let rust = a.tokens.iter().all(|t| lex::is_comment(t) || t.contains(['"', '\'']) || t.chars().all(|c| c.is_ascii() || c.is_alphanumeric()));
        if rust && a.balanced && model::raw_diagnostics(&doc.text, lang).is_some_and(|d| d.iter().all(|d| !d.error)) {
            let crate_name = pname.replace('-', "_");
            let mut have: Vec<String> = n.tokens.clone();
            let import: Vec<usize> = have
                .windows(4)
                .enumerate()
                .filter(|(_, x)| x[0] == "use" && x[1] == crate_name && x[2] == ":" && x[3] == ":")
                .map(|(i, _)| i)
                .collect();
            let Some(at) = import.first().copied() else {
                return viol("extraction does not import the event", format!("crate {crate_name}\nbefore:\n{}\nafter:\n{new_code}", doc.text));
            };
            let ev = have.get(at + 4).cloned().unwrap_or_default();
            have.drain(at..(at + 6).min(have.len()));
            if !l.tokens.windows(2).any(|x| x[0] == "struct" && x[1] == ev) {
                return viol("imported event is not in the new package", format!("use {crate_name}::{ev}; new file:\n{lib}"));
            }
            // Conservation: what left the contract is what arrived in the package.
            have.extend(l.tokens.iter().cloned());
            let mut want = a.tokens.clone();
            let strip = |v: &[String]| -> Vec<String> { v.iter().filter(|t| !lex::is_comment(t)).cloned().collect() };
            let (item, rest) = lex::cut_struct(&strip(&a.tokens), &ev);
            let after = strip(&have[..have.len() - l.tokens.len()]);
            have.sort();
            want.sort();
            if have == want && item.len() == 1 && (rest != after || strip(&l.tokens) != item[0]) {
                return viol(
                    "extraction rearranges code",
                    format!("event {ev}\nbefore:\n{}\nafter:\n{new_code}\nnew file:\n{lib}", doc.text),
                );
            }
            if have != want {
                return viol(
                    "extraction loses or duplicates code",
                    format!("event {ev}\nbefore:\n{}\nafter:\n{new_code}\nnew file:\n{lib}", doc.text),
                );
            }
            if n.tokens.windows(2).any(|x| x[0] == "struct" && x[1] == ev)
                && a.tokens.windows(2).filter(|x| x[0] == "struct" && x[1] == ev).count() == 1
            {
                return viol("extracted event stays in the contract", new_code);
            }
            // The range asked for decides which event moves.
            if let Some((want_name, _)) = struct_at(&doc.text, range).filter(|x| range.1 <= x.1) {
                if want_name != ev {
                    return viol("another event extracted", format!("asked for {want_name}, got {ev}"));
                }
            }
            // Attributes: all but the ink! event markers travel along.
            let mut want_attrs = a.attrs.clone();
            let mut have_attrs: Vec<String> = n.attrs.iter().chain(l.attrs.iter()).cloned().collect();
            let marker = |t: &String| t.contains("event") || t.contains("anonymous") || t.contains("signature_topic");
            want_attrs.retain(|t| !marker(t));
            have_attrs.retain(|t| !marker(t));
            want_attrs.sort();
            have_attrs.sort();
            if want_attrs != have_attrs {
                return viol(
                    "extraction loses or duplicates attributes",
                    format!("event {ev}\nbefore:\n{}\nafter:\n{new_code}\nnew file:\n{lib}", doc.text),
                );
            }
            // Each item is said the same about as before.
            let mut want_facts = lex::facts(&a.flat);
            let mut have_facts = lex::facts(&n.flat);
            have_facts.extend(lex::facts(&l.flat));
            want_facts.sort();
            have_facts.sort();
            if want_facts != have_facts {
                let gone: Vec<_> = want_facts.iter().filter(|t| !have_facts.contains(t)).collect();
                let come: Vec<_> = have_facts.iter().filter(|t| !want_facts.contains(t)).collect();
                return viol(
                    "extraction changes what attributes say",
                    format!("lost {gone:?} gained {come:?}\nevent {ev}\nbefore:\n{}\nafter:\n{new_code}\nnew file:\n{lib}", doc.text),
                );
            }
            if errors(&lib, Lang::V5).is_some_and(|e| !e.is_empty()) {
                return viol("extracted event has errors", format!("{:?}\n{lib}", errors(&lib, Lang::V5)));
            }
            let anon = |v: &[String]| v.iter().filter(|t| t.contains("anonymous")).count();
            if anon(&a.attrs) != anon(&n.attrs) + anon(&l.attrs) {
                return viol("extraction changes an event's anonymity", format!("before:\n{}\nnew file:\n{lib}", doc.text));
            }
        }
        cov.judged(true, &format!("{uri} via {}: {lib}", edit.via));
        Ok(())
    }
}

/// Name with everything but letters and digits removed, in lower case.
pub fn squash(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).flat_map(char::to_lowercase).collect()
}

/// If the range starts at an event attribute: the struct's name and end.
pub fn struct_at(text: &str, range: (usize, usize)) -> Option<(String, usize)> {
    if !text.is_char_boundary(range.0) {
        return None;
    }
    let starts = text[range.0..].starts_with("#[ink(event") || text[range.0..].starts_with("#[ink::event");
    if !starts {
        return None;
    }
    let rest = &text[range.0..];
    let i = rest.find("struct ")?;
    if rest[..i].contains('{') {
        return None;
    }
    let name = rest[i + 7..]
        .chars()
        .take_while(|c| c.is_alphanumeric() || *c == '_')
        .collect();
    let open = i + rest[i..].find(['{', ';', '('])?;
    let close = match rest.as_bytes()[open] {
        b'{' => rest[open..].find('}')?,
        b'(' => rest[open..].find(";")?,
        _ => 0,
    };
    Some((name, range.0 + open + close + 1))
}

impl Monitor for P10 {
    fn after(&mut self, w: &mut World, from: usize, cov: &mut Cov) -> Result<(), Viol> {
        for s in &w.steps[from..] {
            if s.stop.is_some() || opaque(s) {
                continue;
            }
            let Some(("extractEvent", arg)) = command(s) else {
                continue;
            };
            let uri = arg["uri"].as_str().unwrap_or_default();
            let Some(doc) = s.docs_before.get(uri) else {
                continue;
            };
            if doc.blurred || doc.langs.len() != 1 || !uri.ends_with(".rs") {
                continue;
            }
            let (Some(a), Some(b)) = (arg["range"]["start"].as_u64(), arg["range"]["end"].as_u64()) else {
                continue;
            };
            if a > b || b as usize > doc.text.len() {
                continue;
            }
            let lang = *doc.langs.iter().next().expect("lang");
            self.judge(w, s, uri, doc, lang, (a as usize, b as usize), cov)?;
        }
        Ok(())
    }
    fn judges(&self, s: &Step) -> bool {
        matches!(command(s), Some(("extractEvent", _)))
    }
}

// ---------------------------------------------------------------------------------------------
// P11: project creation handshake.

#[derive(Default)]
pub struct P11 {
    /// applyEdit requests in flight: id -> project root.
    in_flight: BTreeMap<String, Vec<String>>,
    /// Ids of all applyEdit requests for new projects in this session.
    issued: BTreeSet<String>,
    session: usize,
}

fn id_text(id: &lsp_server::RequestId) -> String {
    serde_json::to_string(id).unwrap_or_default()
}

impl Monitor for P11 {
    fn after(&mut self, w: &mut World, from: usize, cov: &mut Cov) -> Result<(), Viol> {
        for s in &w.steps[from..] {
            if s.session != self.session {
                self.session = s.session;
                self.in_flight.clear();
                self.issued.clear();
            }
            if s.stop.is_some() {
                continue;
            }
            // Opening the new project's file: only after, and right after, the client has
            // confirmed that it applied the edit.
            let shows: Vec<&lsp_server::Request> =
                server_requests(s).into_iter().filter(|r| r.method == "window/showDocument").collect();
            if let Message::Response(r) = &s.input {
                let roots = self.in_flight.get_mut(&id_text(&r.id)).and_then(|v| (!v.is_empty()).then(|| v.remove(0)));
                let applied = r.error.is_none() && r.result.as_ref().is_some_and(|v| v["applied"] == true);
                match roots {
                    Some(root) if applied && w.cfg.caps.show_document == Some(true) => {
                        let want = format!("{root}lib.rs");
                        if shows.len() != 1 || shows[0].params["uri"] != want {
                            return viol(
                                "new project's file is not shown",
                                format!("after {} expected showDocument of {want}, got {shows:?}", show(&s.input)),
                            );
                        }
                        cov.judged(true, &format!("shown {want}"));
                    }
                    Some(_) => {
                        if !shows.is_empty() {
                            return viol("file of a project that was not created is shown", format!("after {} got {shows:?}", show(&s.input)));
                        }
                        cov.judged(true, &format!("not shown {applied}"));
                    }
                    None if !self.issued.contains(&id_text(&r.id)) && !shows.is_empty() => {
                        return viol("document shown after an unrelated response", format!("after {} got {shows:?}", show(&s.input)));
                    }
                    None => (),
                }
                continue;
            }
            if !shows.is_empty() {
                return viol("document shown out of the blue", format!("after {} got {shows:?}", show(&s.input)));
            }
            if method(s) != "workspace/executeCommand" {
                continue;
            }
            let Some(("createProject", arg)) = command(s) else {
                continue;
            };
            let Some(resp) = response(s) else {
                return viol("createProject unanswered", show(&s.input));
            };
            let valid = match (arg["name"].as_str(), arg["root"].as_str()) {
                (Some(n), Some(root)) if root.starts_with("file:///") => valid_project_name(n),
                (Some(n), Some(root)) if root.starts_with("untitled:") && valid_project_name(n) => continue,
                _ => false,
            };
            let edits: Vec<&lsp_server::Request> = server_requests(s);
            if !valid {
                if resp.error.is_none() || !edits.is_empty() {
                    return viol("project with invalid name or place created", format!("{} -> {:?} {edits:?}", show(&s.input), resp));
                }
                cov.judged(false, "");
                continue;
            }
            let n = arg["name"].as_str().unwrap_or_default();
            let root = arg["root"].as_str().unwrap_or_default();
            let root = if root.ends_with('/') { root.to_owned() } else { format!("{root}/") };
            let edit = match workspace_edit(s) {
                Some(Ok(e)) => e,
                Some(Err(e)) => return viol("malformed project edit", e),
                None => return viol("valid project not created", format!("{} -> {:?}", show(&s.input), resp)),
            };
            if w.cfg.caps.can_create() {
                let at = s.outputs.iter().position(|m| matches!(m, Message::Response(_)));
                if edit.via != "applyEdit" || edits.len() != 1 || resp.result != Some(Value::Null) || at != Some(0) {
                    return viol(
                        "project not delivered as one edit after an empty response",
                        format!("{} -> {}", show(&s.input), s.outputs.iter().map(show).collect::<Vec<_>>().join(" ")),
                    );
                }
                self.issued.insert(id_text(&edits[0].id));
                self.in_flight.entry(id_text(&edits[0].id)).or_default().push(root.clone());
            } else if edit.via != "response" || !edits.is_empty() {
                return viol(
                    "project not delivered in the response to a client that cannot create files",
                    format!("{} -> {}", show(&s.input), s.outputs.iter().map(show).collect::<Vec<_>>().join(" ")),
                );
            }
            let want: BTreeSet<String> = [format!("{root}lib.rs"), format!("{root}Cargo.toml")].into_iter().collect();
            let have: BTreeSet<String> = edit.files.keys().cloned().collect();
            if want != have || !edit.edits.is_empty() {
                return viol("project consists of other files", format!("expected {want:?} got {have:?} and edits {:?}", edit.edits.keys()));
            }
            let cargo = &edit.files[&format!("{root}Cargo.toml")];
            let lib = &edit.files[&format!("{root}lib.rs")];
            let table = cargo.parse::<toml::Table>();
            let pname = table.as_ref().ok().and_then(|t| t.get("package")).and_then(|p| p.get("name")).and_then(toml::Value::as_str);
            if pname != Some(n) || gen::project_lang(&[cargo.clone()]) != Lang::V5 {
                return viol("new project's manifest is not usable", format!("name {n}: {cargo}"));
            }
            if let Some(p) = table.as_ref().ok().and_then(|t| t.get("lib")).and_then(|l| l.get("path")).and_then(toml::Value::as_str) {
                if p != "lib.rs" {
                    return viol("new project's manifest points elsewhere", cargo.clone());
                }
            }
            let diags = model::raw_diagnostics(lib, Lang::V5).unwrap_or_default();
            if !diags.is_empty() || !lex::lex(lib).balanced {
                return viol("new project has diagnostics", format!("{:?}\n{lib}", diags.iter().map(|d| &d.message).collect::<Vec<_>>()));
            }
            cov.judged(true, &format!("{n} {root} via {}", edit.via));
        }
        Ok(())
    }
    fn judges(&self, s: &Step) -> bool {
        matches!(command(s), Some(("createProject", _))) || matches!(s.input, Message::Response(_))
    }
}

// ---------------------------------------------------------------------------------------------
// P14: every offered edit can be applied.

fn one_line(text: &str, range: &Value, enc: Enc) -> Option<(usize, usize)> {
    let r = pos::parse_range(text, range, enc)?;
    Some(r)
}

pub struct P14;
impl Monitor for P14 {
    fn after(&mut self, w: &mut World, from: usize, cov: &mut Cov) -> Result<(), Viol> {
        for s in &w.steps[from..] {
            if s.stop.is_some() || opaque(s) {
                continue;
            }
            if is_positional(s) {
                let uri = doc_uri(s);
                let Some(doc) = s.docs_before.get(uri) else {
                    continue;
                };
                let Some(res) = result(s) else {
                    continue;
                };
                if method(s) == "textDocument/completion" {
                    let mut seen = BTreeSet::new();
                    for item in res["items"].as_array().into_iter().flatten() {
                        let Some((a, b)) = one_line(&doc.text, &item["textEdit"]["range"], w.enc) else {
                            return viol("completion edits a range that does not exist", format!("{item} in {:?}", doc.text));
                        };
                        if let Some((off, _)) = s.offsets {
                            if !(a <= off && off <= b) {
                                return viol("completion edit away from the cursor", format!("{item}, bytes {a}..{b}, cursor {off} in {:?}", doc.text));
                            }
                            if doc.text[a..b].contains('\n') {
                                return viol("completion edit spans lines", format!("{item}, bytes {a}..{b}, cursor {off} in {:?}", doc.text));
                            }
                        }
                        if item["label"].as_str().unwrap_or_default().is_empty() {
                            return viol("completion without a label", item.to_string());
                        }
                        if !seen.insert(canon(item)) {
                            return viol("duplicate completion", format!("{item}"));
                        }
                        cov.judged(true, &canon(item));
                    }
                } else if method(s) == "textDocument/codeAction" {
                    for action in res.as_array().into_iter().flatten() {
                        let Some(edit) = action.get("edit") else {
                            cov.judged(false, "");
                            continue;
                        };
                        let e = match shape(edit, "codeAction") {
                            Ok(e) => e,
                            Err(e) => return viol("malformed code action", format!("{e}: {action}")),
                        };
                        if !e.files.is_empty() || e.edits.len() != 1 || !e.edits.contains_key(uri) {
                            return viol("code action edits another document", format!("{action}"));
                        }
                        let new = match apply(&doc.text, &e.edits[uri], w.enc) {
                            Ok(t) => t,
                            Err(x) => {
                                return viol("code action cannot be applied", format!("{x}: {action} on {:?}", doc.text));
                            }
                        };
                        if new == doc.text && action["data"]["snippets"].is_null() && w.pristine.contains(&crate::rng::fnv(doc.text.as_bytes())) {
                            return viol("code action does nothing", format!("{action} on {:?}", doc.text));
                        }
                        if action["title"].as_str().unwrap_or_default().is_empty() {
                            return viol("code action without a title", action.to_string());
                        }
                        cov.judged(true, &canon(action));
                    }
                }
                continue;
            }
            if command(s).is_some() {
                match workspace_edit(s) {
                    Some(Err(e)) => return viol("malformed workspace edit", e),
                    Some(Ok(e)) => {
                        for (u, edits) in &e.edits {
                            let Some(t) = base_text(w, s, u) else {
                                return viol("edit of a file that does not exist", format!("{u}: {edits}"));
                            };
                            // Migrating a document that does not parse is not judged.
                            let exempt = command(s).is_some_and(|c| c.0 == "migrateProject")
                                && u.ends_with(".rs")
                                && !w.pristine.contains(&crate::rng::fnv(t.as_bytes()));
                            if exempt {
                                cov.judged(false, "");
                                continue;
                            }
                            if let Err(x) = apply(&t, edits, w.enc) {
                                return viol("workspace edit cannot be applied", format!("{u}: {x}: {edits} on {t:?}"));
                            }
                            cov.judged(true, &canon(edits));
                        }
                        if command(s).is_some_and(|c| c.0 == "extractEvent") {
                            for p in e.files.keys().filter_map(|u| uri_path(u)) {
                                let real = seam::under(&w.root, &p);
                                if real.exists() || real.ancestors().skip(1).take(3).any(Path::is_file) {
                                    return viol("workspace edit creates a file where it cannot", format!("{p:?}"));
                                }
                            }
                        }
                    }
                    None => (),
                }
            }
        }
        Ok(())
    }
    fn judges(&self, s: &Step) -> bool {
        matches!(method(s), "textDocument/completion" | "textDocument/codeAction") || command(s).is_some()
    }
}

// ---------------------------------------------------------------------------------------------
// P15: answers are about the place that was asked about.

pub struct P15;
impl Monitor for P15 {
    fn after(&mut self, w: &mut World, from: usize, cov: &mut Cov) -> Result<(), Viol> {
        for i in from..w.steps.len() {
            let s = &w.steps[i];
            if s.stop.is_some() {
                continue;
            }
            if let Sync::Set(uri) = sync(s) {
                let Some(doc) = docs_after(w, i).get(uri) else {
                    continue;
                };
                for p in published(s) {
                    for d in p["diagnostics"].as_array().into_iter().flatten() {
                        if pos::parse_range(&doc.text, &d["range"], w.enc).is_none() {
                            return viol("diagnostic at a place that does not exist", format!("{d} in {:?}", doc.text));
                        }
                        if d["message"].as_str().unwrap_or_default().is_empty() {
                            return viol("diagnostic without a message", d.to_string());
                        }
                        cov.judged(true, &canon(d));
                    }
                    // Every diagnostic of the current text, and no other, at its place in the current text.
                    let want: Vec<Value> = doc.langs.iter().filter_map(|l| model::diagnostics(&doc.text, *l, w.enc)).collect();
                    if !opaque(s) && !want.is_empty() && !want.contains(&p["diagnostics"]) {
                        return viol("diagnostics are not those of the current text", format!("{}, expected {} for {:?}", p["diagnostics"], want[0], doc.text));
                    }
                }
                continue;
            }
            if !is_positional(s) {
                continue;
            }
            if matches!(method(s), "textDocument/hover" | "textDocument/inlayHint" | "textDocument/signatureHelp") {
                if let Some(what) = other_answer(w, s) {
                    return viol("answer is not about the place in the current text", format!("{}: {what}", show(&s.input)));
                }
            }
            let (Some(doc), Some(res), Some((a, b))) = (s.docs_before.get(doc_uri(s)), result(s), s.offsets) else {
                continue;
            };
            match method(s) {
                "textDocument/hover" if !res.is_null() => {
                    let Some((x, y)) = pos::parse_range(&doc.text, &res["range"], w.enc) else {
                        return viol("hover at a place that does not exist", format!("{res} in {:?}", doc.text));
                    };
                    // A hover anywhere in an attribute may be about that attribute's argument.
                    let near = (x <= a && a <= y) || lex::same_attribute(&doc.text, x.min(a), y.max(a));
                    if (!near && lex::lex(&doc.text).balanced) || x == y {
                        return viol("hover about another place", format!("{res}, bytes {x}..{y}, asked for {a} in {:?}", doc.text));
                    }
                    cov.judged(true, &canon(res));
                }
                "textDocument/inlayHint" => {
                    for h in res.as_array().into_iter().flatten() {
                        let Some(p) = Pos::parse(&h["position"]).and_then(|p| pos::to_off(&doc.text, p, w.enc)) else {
                            return viol("inlay hint at a place that does not exist", format!("{h} in {:?}", doc.text));
                        };
                        if !(a <= p && p <= b) {
                            return viol("inlay hint outside of the requested range", format!("{h} at byte {p}, asked for {a}..{b} in {:?}", doc.text));
                        }
                        cov.judged(true, &canon(h));
                    }
                }
                "textDocument/signatureHelp" if !res.is_null() => {
                    let sigs = res["signatures"].as_array().cloned().unwrap_or_default();
                    let act = res["activeSignature"].as_u64().unwrap_or(0) as usize;
                    if sigs.is_empty() || act >= sigs.len() {
                        return viol("active signature does not exist", format!("{res}"));
                    }
                    for (i, sig) in sigs.iter().enumerate() {
                        let label = sig["label"].as_str().unwrap_or_default();
                        let ps = sig["parameters"].as_array().cloned().unwrap_or_default();
                        let mut idx = vec![];
                        idx.extend(sig["activeParameter"].as_u64());
                        if i == act {
                            idx.extend(res["activeParameter"].as_u64());
                        }
                        for x in idx {
                            if x as usize >= ps.len() {
                                return viol("active parameter does not exist", format!("{res}"));
                            }
                        }
                        let mut last = 0;
                        for p in &ps {
                            match &p["label"] {
                                Value::String(t) => {
                                    if t.is_empty() || !label.contains(t.as_str()) {
                                        return viol("parameter label is not part of the signature", format!("{sig}"));
                                    }
                                }
                                Value::Array(r) => {
                                    let x = r.first().and_then(Value::as_u64).unwrap_or(u64::MAX);
                                    let y = r.get(1).and_then(Value::as_u64).unwrap_or(0);
                                    if !(last <= x && x < y && y <= u64::from(w.enc.units(label))) {
                                        return viol("parameter label offsets are not part of the signature", format!("{sig}"));
                                    }
                                    last = y;
                                }
                                _ => return viol("parameter without a label", format!("{sig}")),
                            }
                        }
                    }
                    cov.judged(true, &canon(res));
                }
                _ => (),
            }
        }
        Ok(())
    }
    fn judges(&self, s: &Step) -> bool {
        is_positional(s)
    }
}

// ---------------------------------------------------------------------------------------------
// P17: the server only uses what the client can do.

pub struct P17 {
    pub checked_init: usize,
}

fn contains_snippet(t: &str) -> bool {
    t.contains("$0") || t.contains("$1") || t.contains("${1")
}

impl Monitor for P17 {
    fn after(&mut self, w: &mut World, from: usize, cov: &mut Cov) -> Result<(), Viol> {
        let caps = &w.cfg.caps;
        if self.checked_init != w.session_no {
            self.checked_init = w.session_no;
            let c = &w.init_result["capabilities"];
            let enc = c["positionEncoding"].as_str().unwrap_or("utf-16");
            let offered = caps.encodings.clone().unwrap_or_default();
            if enc != "utf-16" && !offered.iter().any(|e| e == enc) {
                return viol("position encoding the client did not offer", format!("{enc} not in {offered:?}"));
            }
            if !["utf-8", "utf-16", "utf-32"].contains(&enc) {
                return viol("unknown position encoding", enc.to_owned());
            }
            let kinds = c["codeActionProvider"]["codeActionKinds"].as_array().cloned();
            if let (Some(kinds), Some(ok)) = (kinds, &caps.action_kinds) {
                for k in kinds {
                    let k = k.as_str().unwrap_or_default();
                    let known = ok.iter().any(|o| o == k || o.is_empty() || k.starts_with(&format!("{o}.")));
                    if !known {
                        return viol("code action kind the client does not know", format!("{k} not in {ok:?}"));
                    }
                }
            }
            cov.judged(true, &format!("{caps:?}"));
        }
        for s in &w.steps[from..] {
            if s.stop.is_some() {
                continue;
            }
            for r in server_requests(s) {
                match r.method.as_str() {
                    "workspace/applyEdit" => {
                        if caps.apply_edit != Some(true) {
                            return viol("applyEdit sent to a client that cannot", show(&Message::Request(r.clone())));
                        }
                        let e = &r.params["edit"];
                        if e.get("documentChanges").is_some() && caps.document_changes != Some(true) {
                            return viol("documentChanges sent to a client that cannot", show(&Message::Request(r.clone())));
                        }
                        let creates = e["documentChanges"].as_array().into_iter().flatten().any(|c| c["kind"] == "create");
                        if creates && !caps.can_create() {
                            return viol("file creation sent to a client that cannot", show(&Message::Request(r.clone())));
                        }
                        cov.judged(true, &format!("applyEdit {caps:?}"));
                    }
                    "window/showDocument" => {
                        if caps.show_document != Some(true) {
                            return viol("showDocument sent to a client that cannot", show(&Message::Request(r.clone())));
                        }
                        cov.judged(true, &format!("showDocument {caps:?}"));
                    }
                    _ => (),
                }
            }
            let Some(res) = result(s) else {
                continue;
            };
            // Clients get what they can use, or its plain equivalent.
            if let Some((name, _)) = command(s) {
                let able = match name {
                    "migrateProject" => caps.apply_edit == Some(true),
                    _ => caps.can_create(),
                };
                let sent = server_requests(s).iter().filter(|r| r.method == "workspace/applyEdit").count();
                let inline = ["edits", "files"].iter().any(|k| res[*k].as_object().is_some_and(|o| !o.is_empty()));
                if method(s) == "workspace/executeCommand" && (sent != usize::from(able) || inline == able) {
                    return viol(
                        "command result not delivered the way the client can use it",
                        format!("{} with {caps:?}: {sent} applyEdit requests, result {res}", show(&s.input)),
                    );
                }
            }
            if let Some(what) = other_answer(w, s) {
                return viol("answer is not the one for the client's capabilities", format!("{} with {caps:?}: {what}", show(&s.input)));
            }
            match method(s) {
                "textDocument/completion" => {
                    for item in res["items"].as_array().into_iter().flatten() {
                        if caps.snippets != Some(true) {
                            let t = item["textEdit"]["newText"].as_str().unwrap_or_default();
                            if item["insertTextFormat"] == 2 || contains_snippet(t) {
                                return viol("snippet sent to a client without snippet support", item.to_string());
                            }
                        } else if contains_snippet(item["textEdit"]["newText"].as_str().unwrap_or_default())
                            && item["insertTextFormat"] != 2
                        {
                            return viol("snippet not marked as such", item.to_string());
                        }
                        cov.judged(true, &format!("{:?} {}", caps.snippets, canon(item)));
                    }
                }
                "textDocument/signatureHelp" if !res.is_null() => {
                    for sig in res["signatures"].as_array().into_iter().flatten() {
                        if sig.get("activeParameter").is_some_and(|v| !v.is_null()) && caps.active_parameter != Some(true) {
                            return viol("per-signature active parameter sent to a client without support", sig.to_string());
                        }
                        for p in sig["parameters"].as_array().into_iter().flatten() {
                            if p["label"].is_array() && caps.label_offset != Some(true) {
                                return viol("label offsets sent to a client without support", sig.to_string());
                            }
                        }
                    }
                    cov.judged(true, &format!("{:?} {:?} {}", caps.active_parameter, caps.label_offset, canon(res)));
                }
                "textDocument/codeAction" => {
                    for a in res.as_array().into_iter().flatten() {
                        let has_edit = a.get("edit").is_some();
                        let has_cmd = a.get("command").is_some();
                        if !has_edit && !has_cmd && !caps.can_resolve_edit() {
                            return viol("lazy code action offered to a client that cannot resolve it", a.to_string());
                        }
                        let edits = a["edit"]["changes"].as_object().into_iter().flatten().flat_map(|(_, e)| e.as_array().cloned().unwrap_or_default());
                        for e in edits {
                            // (Unless it is moved from elsewhere in the document.)
                            let theirs = s.docs_before.get(doc_uri(s)).is_some_and(|d| contains_snippet(&d.text));
                            if !theirs && contains_snippet(e["newText"].as_str().unwrap_or_default()) {
                                return viol("snippet in a plain text edit", a.to_string());
                            }
                        }
                        if !has_edit {
                            cov.judged(true, &format!("{:?} {}", caps.resolve, canon(a)));
                        }
                    }
                }
                _ => (),
            }
        }
        let _ = world::SLOTS;
        Ok(())
    }
    fn judges(&self, _: &Step) -> bool {
        false
    }
}

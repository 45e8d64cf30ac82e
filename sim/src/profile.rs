//! Seeded generation of traces (swarm style: each run gets its own mix of operations and faults).

use crate::gen::{self, Lang};
use crate::rng::{derive, Rng};
use crate::seam::{Fault, FaultKind, OpClass};
use crate::world::{disk_manifest, Caps, Config, Op, Trace, K, MANIFESTS, SLOTS};

#[derive(Clone)]
pub struct Profile {
    pub weights: Vec<(K, u32)>,
    pub ops: (usize, usize),
    /// One in n operations carries injected file system faults (0: never).
    pub fault_every: usize,
    pub swarm: bool,
    /// Probability (in 1/8) that initial manifests are plain, valid ones.
    pub plain_disk: usize,
    pub full_caps: bool,
    pub slots: Option<Vec<usize>>,
    /// Kinds that start the trace.
    pub prefix: Vec<K>,
    /// Profiles that half of the runs follow instead.
    pub mix: Vec<fn() -> Profile>,
}

pub fn base_weights() -> Vec<(K, u32)> {
    use K::*;
    vec![
        (Open, 10), (OpenDup, 1), (OpenNonRust, 1), (Change, 6), (ChangeSmall, 14), (ChangeMulti, 2), (ChangeEmpty, 1),
        (ChangeUnopened, 1), (Close, 4), (CloseUnopened, 1), (Keystrokes, 2), (Noise, 3), (Completion, 12), (Hover, 8),
        (SigHelp, 8), (CodeAction, 12), (Inlay, 6), (Resolve, 4), (ApplyAction, 8), (AcceptCompletion, 5), (CmdCreate, 2),
        (CmdMigrate, 3), (CmdExtract, 3), (CmdOdd, 1), (BadParams, 2), (UnknownMethod, 2), (OutOfRange, 4), (Answer, 5),
        (StrayResponse, 1), (DiskManifest, 4), (DiskDelete, 1), (DiskEventDir, 1), (ClockJump, 1), (Crash, 1),
        (OpenContract, 6), (OpenVersionProbe, 2), (Reopen, 2),
    ]
}

impl Profile {
    pub fn general() -> Profile {
        Profile {
            weights: base_weights(),
            ops: (12, 45),
            fault_every: 12,
            swarm: true,
            plain_disk: 4,
            full_caps: false,
            slots: None,
            prefix: vec![K::Open],
            mix: vec![],
        }
    }

    pub fn only(list: &[(K, u32)]) -> Profile {
        Profile {
            weights: list.to_vec(),
            ..Profile::general()
        }
    }
}

pub fn faults(r: &mut Rng) -> Vec<Fault> {
    let class = match r.below(4) {
        0 => OpClass::Any,
        1 => OpClass::Stat,
        2 => OpClass::Open,
        _ => OpClass::Read,
    };
    let kind = match r.weighted(&[10, 6, 4, 4, 4, 3, 3]) {
        0 => FaultKind::Errno(*r.pick(&[libc::EIO, libc::EACCES, libc::ENOENT, libc::EMFILE, libc::ENOMEM, libc::ESTALE])),
        1 => FaultKind::ShortRead(*r.pick(&[1, 2, 7, 16, 64])),
        2 => FaultKind::Interrupted,
        3 => {
            let path = (*r.pick(MANIFESTS)).to_owned();
            let lang = if r.chance(1, 2) { Lang::V4 } else { Lang::V5 };
            let content = disk_manifest(r, &path, lang).into_bytes();
            FaultKind::Replace { path, content }
        }
        4 => FaultKind::Delete {
            path: (*r.pick(MANIFESTS)).to_owned(),
        },
        5 => FaultKind::Garble,
        _ => FaultKind::Truncate,
    };
    let class = match kind {
        FaultKind::ShortRead(_) | FaultKind::Garble | FaultKind::Truncate => OpClass::Read,
        FaultKind::Interrupted if class == OpClass::Stat || class == OpClass::Any => OpClass::Read,
        _ => class,
    };
    let sticky = match kind {
        // An endless EINTR would be a stalled machine, not a fault to be transparent to.
        FaultKind::Interrupted => false,
        FaultKind::ShortRead(_) => r.chance(1, 2),
        _ => r.chance(1, 3),
    };
    vec![Fault {
        class,
        at: r.weighted(&[8, 4, 3, 2, 1]) as u32,
        sticky,
        kind,
    }]
}

pub fn config(r: &mut Rng, p: &Profile) -> Config {
    let mut caps = Caps::random(r);
    if p.full_caps {
        let enc = caps.encodings.clone();
        let kinds = caps.action_kinds.clone();
        caps = Caps {
            encodings: enc,
            snippets: Some(r.chance(1, 2)),
            resolve: if r.chance(2, 3) { Some(vec!["edit".to_owned()]) } else { None },
            active_parameter: Some(true),
            label_offset: Some(r.chance(1, 2)),
            apply_edit: Some(true),
            document_changes: Some(true),
            resource_ops: Some(vec!["create".to_owned(), "rename".to_owned()]),
            action_kinds: kinds,
            show_document: Some(true),
        };
    }
    let slots = p.slots.clone().unwrap_or_else(|| {
        let n = if r.chance(1, 6) { r.range(5, 9) } else { r.range(1, 4) };
        (0..n).map(|_| r.below(SLOTS.len())).collect()
    });
    let mut disk = vec![];
    for path in MANIFESTS {
        if *path == "/w/p1/src/Cargo.toml" || (*path == "/w/Cargo.toml" && r.chance(1, 2)) {
            continue;
        }
        if r.chance(1, 8) {
            continue;
        }
        let lang = if r.chance(1, 2) { Lang::V4 } else { Lang::V5 };
        let text = if r.below(8) < p.plain_disk {
            match *path {
                "/w/ws/Cargo.toml" => gen::workspace_root_manifest(r, lang),
                "/w/ws/a/Cargo.toml" | "/w/ws/b/Cargo.toml" | "/w/ws/nested/group/c/Cargo.toml" => gen::workspace_member_manifest(r),
                _ => gen::manifest(r, lang, true),
            }
        } else {
            disk_manifest(r, path, lang)
        };
        disk.push(((*path).to_owned(), text));
    }
    Config {
        caps,
        hash_seed: r.next(),
        slots,
        disk,
    }
}

pub fn trace(seed: u64, run: u64, p: &Profile) -> Trace {
    let mut r = Rng::new(derive(seed, run));
    let other = (!p.mix.is_empty() && r.chance(1, 2)).then(|| (*r.pick(&p.mix))());
    let p = other.as_ref().unwrap_or(p);
    let cfg = config(&mut r, p);
    let mut weights: Vec<(K, u32)> = p.weights.clone();
    if p.swarm {
        // Each run drops some kinds of operations and boosts others.
        for w in weights.iter_mut() {
            match r.below(6) {
                0 => w.1 = 0,
                1 => w.1 *= 4,
                _ => (),
            }
        }
        if weights.iter().all(|w| w.1 == 0) {
            weights = p.weights.clone();
        }
    }
    let ws: Vec<u32> = weights.iter().map(|w| w.1).collect();
    let n = r.range(p.ops.0, p.ops.1);
    let mut ops = vec![];
    for k in &p.prefix {
        ops.push(Op {
            k: *k,
            r: r.next(),
            text: None,
            faults: vec![],
        });
    }
    if p.slots.is_none() && cfg.slots.len() > 4 {
        // Many documents at once.
        for _ in 0..6 {
            ops.push(Op {
                k: K::Open,
                r: r.next(),
                text: None,
                faults: vec![],
            });
        }
    }
    for _ in 0..n {
        let k = weights[r.weighted(&ws)].0;
        let f = if p.fault_every > 0 && r.chance(1, p.fault_every) {
            faults(&mut r)
        } else {
            vec![]
        };
        ops.push(Op {
            k,
            r: r.next(),
            text: None,
            faults: f,
        });
    }
    Trace { cfg, ops }
}

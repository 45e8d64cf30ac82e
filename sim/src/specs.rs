//! Which traces each property is searched on.

use crate::profile::Profile;
use crate::props::*;
use crate::props2::*;
use crate::world::K;

fn general() -> Profile {
    Profile::general()
}

/// All that can be asked for, half of the time in sessions devoted to one part of it.
fn everything() -> Profile {
    Profile {
        mix: vec![migrations, migrations, extractions, faulty, offers, positions, creations],
        ..Profile::general()
    }
}

fn positions() -> Profile {
    use K::*;
    Profile {
        fault_every: 30,
        ops: (15, 40),
        ..Profile::only(&[
            (Open, 8), (OpenContract, 8), (Change, 4), (ChangeSmall, 10), (Close, 1), (Keystrokes, 2), (Completion, 16), (Hover, 16),
            (SigHelp, 16), (CodeAction, 12), (Inlay, 12), (OutOfRange, 6), (ApplyAction, 4), (AcceptCompletion, 4), (DiskManifest, 1),
        ])
    }
}

fn versions() -> Profile {
    use K::*;
    Profile {
        fault_every: 10,
        ops: (12, 40),
        ..Profile::only(&[
            (OpenVersionProbe, 14), (OpenContract, 6), (Change, 1), (ChangeProbe, 14), (Close, 4), (Reopen, 10), (DiskManifest, 14), (DiskDelete, 3),
            (CmdMigrate, 6), (Resolve, 3), (CodeAction, 3), (Answer, 6), (Crash, 1), (OpenDup, 3), (ClockJump, 1), (Hover, 1), (CmdExtract, 1),
        ])
    }
}

fn faulty() -> Profile {
    use K::*;
    Profile {
        fault_every: 2,
        ops: (12, 40),
        ..Profile::only(&[
            (OpenVersionProbe, 10), (OpenContract, 8), (Open, 3), (ChangeProbe, 6), (ChangeSmall, 3), (Close, 3), (Reopen, 10), (DiskManifest, 8),
            (DiskDelete, 2), (CmdMigrate, 6), (CmdExtract, 6), (Completion, 2), (CodeAction, 3), (Hover, 2), (Resolve, 3), (Answer, 2), (Crash, 1),
        ])
    }
}

fn migrations() -> Profile {
    use K::*;
    Profile {
        fault_every: 25,
        ops: (6, 24),
        plain_disk: 6,
        ..Profile::only(&[
            (OpenContract, 16), (Open, 3), (ChangeSmall, 2), (CmdMigrate, 20), (CodeAction, 4), (Resolve, 6), (Answer, 8), (DiskManifest, 6),
            (Reopen, 2), (ApplyAction, 1), (Close, 1),
        ])
    }
}

fn extractions() -> Profile {
    use K::*;
    Profile {
        fault_every: 25,
        ops: (6, 24),
        plain_disk: 6,
        ..Profile::only(&[
            (OpenContract, 16), (Open, 2), (ChangeSmall, 2), (CmdExtract, 26), (CodeAction, 4), (Resolve, 6), (Answer, 8), (DiskManifest, 4),
            (DiskEventDir, 6), (CmdMigrate, 1), (Reopen, 1),
        ])
    }
}

fn creations() -> Profile {
    use K::*;
    Profile {
        fault_every: 25,
        ops: (8, 30),
        ..Profile::only(&[
            (CmdCreate, 24), (Answer, 18), (StrayResponse, 4), (OpenContract, 3), (Open, 2), (ChangeSmall, 2), (CmdMigrate, 3), (CmdExtract, 2),
            (Completion, 2), (Crash, 1), (CmdOdd, 2), (Noise, 1),
        ])
    }
}

fn still() -> Profile {
    let mut p = Profile::general();
    p.fault_every = 0;
    p.weights.retain(|(k, _)| {
        !matches!(
            k,
            K::DiskManifest | K::DiskDelete | K::DiskEventDir | K::Crash | K::Answer
        )
    });
    p
}

fn offers() -> Profile {
    use K::*;
    Profile {
        fault_every: 40,
        ops: (15, 40),
        ..Profile::only(&[
            (Open, 10), (OpenContract, 6), (Change, 5), (ChangeSmall, 16), (Keystrokes, 2), (Completion, 20), (CodeAction, 22), (ApplyAction, 14),
            (AcceptCompletion, 10), (CmdMigrate, 3), (CmdExtract, 4), (Resolve, 3), (Answer, 3), (DiskManifest, 1), (DiskEventDir, 2),
        ])
    }
}

fn short() -> Profile {
    Profile {
        ops: (0, 14),
        ..Profile::general()
    }
}

pub const SPECS: &[Spec] = &[
    Spec { id: "P01", profile: everything, monitor: || Box::new(P01), quick: 3000, thorough: 40_000, rule: "a message the server was given (distinct request contents and outcomes)" },
    Spec { id: "P02", profile: everything, monitor: || Box::new(P02), quick: 2400, thorough: 40_000, rule: "a request whose response was classified" },
    Spec { id: "P03", profile: general, monitor: || Box::new(P03 { salt: 1 }), quick: 1000, thorough: 20_000, rule: "an answer compared with a pristine server's, more than empty" },
    Spec { id: "P04", profile: general, monitor: || Box::new(P04), quick: 1600, thorough: 30_000, rule: "a publication with diagnostics compared with the model" },
    Spec { id: "P05", profile: positions, monitor: || Box::new(P05), quick: 2000, thorough: 40_000, rule: "a non-empty answer compared with the model" },
    Spec { id: "P06", profile: versions, monitor: || Box::new(P06), quick: 2000, thorough: 40_000, rule: "a sync whose diagnostics tell the ink! versions apart" },
    Spec { id: "P07", profile: faulty, monitor: || Box::new(P07), quick: 1600, thorough: 40_000, rule: "a message handled while an injected fault fired" },
    Spec { id: "P08", profile: everything, monitor: || Box::new(P08), quick: 2000, thorough: 40_000, rule: "a message whose handling touched the file system" },
    Spec { id: "P09", profile: migrations, monitor: || Box::new(P09), quick: 3200, thorough: 40_000, rule: "a migration that changes the contract" },
    Spec { id: "P10", profile: extractions, monitor: || Box::new(P10), quick: 4000, thorough: 40_000, rule: "an extraction that produced a package" },
    Spec { id: "P11", profile: creations, monitor: || Box::<P11>::default(), quick: 4000, thorough: 40_000, rule: "a project offered, shown or withheld" },
    Spec { id: "P12", profile: still, monitor: || Box::new(P12 { from: 0 }), quick: 1000, thorough: 20_000, rule: "a history compared with its re-execution" },
    Spec { id: "P13", profile: short, monitor: || Box::new(crate::life::P13), quick: 3600, thorough: 30_000, rule: "a session brought to an end after a generated history" },
    Spec { id: "P14", profile: offers, monitor: || Box::new(P14), quick: 2400, thorough: 40_000, rule: "an offered edit that was applied to a copy" },
    Spec { id: "P15", profile: positions, monitor: || Box::new(P15), quick: 1200, thorough: 40_000, rule: "a range, position or index that was checked" },
    Spec { id: "P17", profile: general, monitor: || Box::new(P17 { checked_init: usize::MAX }), quick: 2000, thorough: 40_000, rule: "an answer whose shape depends on client capabilities" },
];

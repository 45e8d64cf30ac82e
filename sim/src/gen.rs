//! Workload: ink! documents, edits and manifests.

use crate::rng::Rng;
use std::sync::OnceLock;

pub struct Corpus {
    pub snippets: Vec<String>,
    pub attrs: Vec<String>,
    pub fixtures: Vec<String>,
}

pub fn corpus() -> &'static Corpus {
    static C: OnceLock<Corpus> = OnceLock::new();
    C.get_or_init(|| {
        #[derive(serde::Deserialize)]
        struct E {
            kind: String,
            text: String,
        }
        let list: Vec<E> = serde_json::from_str(include_str!("../corpus.json")).expect("corpus");
        let mut c = Corpus {
            snippets: vec![],
            attrs: vec![],
            fixtures: vec![],
        };
        for e in list {
            match e.kind.as_str() {
                "snippet" => c.snippets.push(e.text),
                "attr" => c.attrs.push(e.text),
                _ => c.fixtures.push(e.text),
            }
        }
        c
    })
}

const NAMES: &[&str] = &[
    "Flipper", "Erc20", "Token", "Ünïcode", "Vault", "Registry", "Counter", "Dao", "Psp22",
];
const EVENTS: &[&str] = &[
    "Transfer", "Approval", "Flipped", "HTTPEvent", "My_Event", "Évènement", "E1", "OwnershipMoved", "Event2", "_Hidden", "X", "aBC", "Zeile_1_2", "ЁЖ",
];
const TYPES: &[&str] = &["u8", "u32", "bool", "Hash", "AccountId", "Balance", "Vec<u8>", "Option<u32>"];
const COMMENTS: &[&str] = &[
    "/// plain docs.",
    "/// ünïcödé döcs — with “quotes”.",
    "/// emoji 🦑🚀 docs.",
    "// note: 漢字 and 🦀.",
    "/* block ✨ comment */",
];

#[derive(Clone, Debug, Default)]
pub struct DocCfg {
    /// Write ink! 5.x (rather than 4.x) syntax.
    pub v5: bool,
    /// Non-ASCII text in comments/idents.
    pub unicode: bool,
    /// Give every event a distinct name and keep the contract free of intentional flaws.
    pub clean: bool,
    pub min_events: usize,
}

pub fn contract(r: &mut Rng, cfg: &DocCfg) -> String {
    let mut o = String::new();
    let name = loop {
        let n = *r.pick(NAMES);
        if cfg.unicode || n.is_ascii() {
            break n;
        }
    };
    let comment = |r: &mut Rng, o: &mut String, indent: &str| {
        if r.chance(1, 3) {
            let c = loop {
                let c = *r.pick(COMMENTS);
                if cfg.unicode || c.is_ascii() {
                    break c;
                }
            };
            o.push_str(indent);
            o.push_str(c);
            o.push('\n');
        }
    };
    if r.chance(3, 4) {
        o.push_str("#![cfg_attr(not(feature = \"std\"), no_std, no_main)]\n\n");
    }
    if r.chance(1, 4) {
        o.push_str("use ink::prelude::vec::Vec;\n");
    }
    let style = if cfg.v5 || r.chance(1, 2) { 0 } else { r.below(STYLES.len()) };
    let (root_uses, mod_uses) = (STYLES[style].1, STYLES[style].2);
    o.push_str(root_uses);
    // Scopes that import from each other.
    let modname = if cfg.unicode && r.chance(1, 4) { "módulo" } else { "contract" };
    let cyclic = r.chance(1, 6);
    if cyclic {
        o.push_str(&match r.below(4) {
            0 => format!("pub use self::{modname}::{{{name}, {name}Ref}};\n"),
            1 => format!("pub use {modname}::*;\n"),
            2 => format!("use crate::{modname}::*;\n"),
            _ => format!("pub use {modname}::{name}Ref as Exported;\npub mod reexports {{\n    pub use super::*;\n    pub use super::{modname}::*;\n}}\nuse reexports::*;\n"),
        });
    }
    let env = r.chance(1, 4);
    if env {
        o.push_str("use ink::env::{DefaultEnvironment, Environment};\n\n");
        comment(r, &mut o, "");
        o.push_str("#[derive(Clone)]\npub enum CustomEnvironment {}\n\n");
        o.push_str("impl Environment for CustomEnvironment {\n    const MAX_EVENT_TOPICS: usize = 3;\n    type AccountId = <DefaultEnvironment as Environment>::AccountId;\n    type Balance = <DefaultEnvironment as Environment>::Balance;\n    type Hash = <DefaultEnvironment as Environment>::Hash;\n    type BlockNumber = <DefaultEnvironment as Environment>::BlockNumber;\n    type Timestamp = <DefaultEnvironment as Environment>::Timestamp;\n    type ChainExtension = <DefaultEnvironment as Environment>::ChainExtension;\n}\n\n");
    }
    // Events.
    let n_events = r.range(cfg.min_events, cfg.min_events.max(2) + usize::from(!cfg.clean));
    let mut pool: Vec<&str> = EVENTS
        .iter()
        .copied()
        .filter(|e| cfg.unicode || e.is_ascii())
        .collect();
    let mut outer = String::new();
    let mut inner = String::new();
    let mut event_names = vec![];
    for _ in 0..n_events {
        let ev = if cfg.clean && !pool.is_empty() {
            pool.remove(r.below(pool.len()))
        } else {
            *r.pick(EVENTS)
        };
        event_names.push(ev.to_owned());
        let outside = cfg.v5 && r.chance(1, 3);
        let indent = if outside { "" } else { "    " };
        let mut e = String::new();
        comment(r, &mut e, indent);
        if r.chance(1, 3) {
            e.push_str(indent);
            e.push_str("#[derive(Debug, Clone)]\n");
        }
        if r.chance(1, 10) {
            e.push_str(&format!("{indent}{}\n", r.pick(&["#[doc = \"Says so.\"]", "#[doc(hidden)]", "#[cfg_attr(feature = \"std\", derive(Hash))]"])));
        }
        let anon = r.chance(1, 5);
        let attr = match (cfg.v5, anon, r.below(3)) {
            (true, false, _) => "#[ink::event]".to_owned(),
            (true, true, _) => "#[ink::event(anonymous)]".to_owned(),
            (false, false, _) => "#[ink(event)]".to_owned(),
            (false, true, 0) => "#[ink(event)]\n    #[ink(anonymous)]".to_owned(),
            (false, true, 1) => "#[ink(anonymous)]\n    #[ink(event)]".to_owned(),
            (false, true, _) => "#[ink(event, anonymous)]".to_owned(),
        };
        let attr = match r.below(12) {
            0 => attr.replace("event", " event "),
            1 => format!("{attr} // é attribute"),
            2 => format!("{attr}\n{indent}#[allow(dead_code)]"),
            3 => format!("{attr}\n{indent}// between"),
            _ => attr,
        };
        let vis = *r.pick(&["pub ", "pub ", "pub ", "pub ", "", "pub(crate) "]);
        if r.chance(1, 10) {
            // No or unnamed fields.
            let body = *r.pick(&[";", "(u32, Vec<u8>);", "(#[ink(topic)] Hash);", " {}"]);
            e.push_str(&format!("{indent}{attr}\n{indent}{vis}struct {ev}{body}\n\n"));
            if outside {
                outer.push_str(&e);
            } else {
                inner.push_str(&e);
            }
            continue;
        }
        e.push_str(&format!("{indent}{attr}\n{indent}{vis}struct {ev} {{\n"));
        let n_fields = r.range(0, 3);
        let mut topics = 0;
        for f in 0..n_fields {
            comment(r, &mut e, &format!("{indent}    "));
            if topics < 2 && r.chance(1, 2) {
                topics += 1;
                e.push_str(&format!("{indent}    #[ink(topic)]\n"));
            }
            if r.chance(1, 8) {
                e.push_str(&format!("{indent}    {}\n", r.pick(&["#[cfg(feature = \"std\")]", "#[doc = \"é\"]", "#[allow(unused)]"])));
            }
            let pubf = if r.chance(1, 4) { "pub " } else { "" };
            let tail = *r.pick(&[",", ",", ",", ", // é", ", /* x */", ","]);
            e.push_str(&format!("{indent}    {pubf}f{f}: {}{tail}\n", r.pick(TYPES)));
        }
        e.push_str(&format!("{indent}}}\n\n"));
        if outside {
            outer.push_str(&e);
        } else {
            inner.push_str(&e);
        }
    }
    // Types with SCALE derives.
    let n_types = r.below(3);
    let mut types = String::new();
    for t in 0..n_types {
        comment(r, &mut types, "    ");
        if cfg.v5 {
            types.push_str("    #[derive(Debug, PartialEq, Eq)]\n    #[ink::scale_derive(Encode, Decode, TypeInfo)]\n");
        } else {
            match r.below(10) {
                3 => types.push_str("    #[derive(scale::Encode, scale::Decode)]\n    #[cfg_attr(feature = \"std\", derive(scale_info::TypeInfo), allow(dead_code))]\n"),
                4 => types.push_str("    #[derive(Debug, scale::Encode, scale::Decode,)]\n    #[cfg_attr(feature = \"std\", allow(dead_code), derive(scale_info::TypeInfo))]\n"),
                5 => types.push_str("    #[cfg_attr(feature = \"std\", derive(scale_info::TypeInfo,))]\n    #[derive(scale::Encode)]\n    #[derive(Clone)]\n    #[derive(scale::Decode)]\n"),
                6 => types.push_str("    #[derive(\n        Debug,\n        scale::Encode,\n        scale::Decode,\n    )]\n    #[cfg_attr(feature = \"std\", derive(ink::storage::traits::StorageLayout, scale_info::TypeInfo))]\n"),
                7 => types.push_str("    #[derive(Debug)]\n    #[cfg_attr(any(feature = \"std\", test), derive(scale_info::TypeInfo), doc = \"é\", allow(unused))]\n"),
                0 => types.push_str("    #[derive(Debug, PartialEq, Eq, scale::Encode, scale::Decode)]\n    #[cfg_attr(feature = \"std\", derive(scale_info::TypeInfo))]\n"),
                1 => types.push_str("    #[derive(scale::Encode, scale::Decode)]\n    #[cfg_attr(\n        feature = \"std\",\n        derive(scale_info::TypeInfo, ink::storage::traits::StorageLayout)\n    )]\n"),
                _ => types.push_str("    #[derive(Debug, scale::Decode, scale::Encode, Clone)]\n    #[cfg_attr(feature = \"std\", derive(scale_info::TypeInfo))]\n"),
            }
        }
        if r.chance(1, 2) {
            types.push_str(&format!("    pub enum Error{t} {{\n        Bad,\n        Worse(u32),\n    }}\n\n"));
        } else {
            types.push_str(&format!("    pub struct Info{t} {{\n        a: u32,\n        b: bool,\n    }}\n\n"));
        }
    }
    // Chain extension.
    let chain_ext = r.chance(1, 4);
    if chain_ext {
        let several = if r.chance(1, 3) { r.range(2, 4) } else { 1 };
        for n in 0..several {
        let id1 = r.range(1, 200);
        let id2 = id1 + 1 + r.below(50);
        let hex = r.chance(1, 3);
        let f = |n: usize| if hex { format!("{n:#x}") } else { n.to_string() };
        let head = match (cfg.v5, r.below(3)) {
            (true, 0) => format!("#[ink::chain_extension(extension = {:#x})]", 7 + n),
            (true, _) => format!("#[ink::chain_extension(extension = {})]", 7 + n),
            (false, 0) => "#[ink::chain_extension()]".to_owned(),
            (false, _) => "#[ink::chain_extension]".to_owned(),
        };
        outer.push_str(&format!(
            "{}\npub trait MyExtension{} {{\n    type ErrorCode = MyErrorCode;\n\n    #[ink({} = {})]\n    fn read(key: &[u8]) -> Vec<u8>;\n\n    #[ink({} = {}, handle_status = false)]\n    fn write(key: u32);\n}}\n\n",
            head,
            if n == 0 { String::new() } else { n.to_string() },
            if cfg.v5 { "function" } else { "extension" },
            f(id1),
            if cfg.v5 { "function" } else { "extension" },
            f(id2),
        ));
        }
        outer.push_str(if cfg.v5 {
            "#[ink::scale_derive(Encode, Decode, TypeInfo)]\npub enum MyErrorCode {\n    Invalid,\n}\n\nimpl ink::env::chain_extension::FromStatusCode for MyErrorCode {\n    fn from_status_code(status_code: u32) -> Result<(), Self> {\n        match status_code {\n            0 => Ok(()),\n            _ => panic!(\"encountered unknown status code\"),\n        }\n    }\n}\n\n"
        } else {
            "#[derive(scale::Encode, scale::Decode, scale_info::TypeInfo)]\npub enum MyErrorCode {\n    Invalid,\n}\n\nimpl ink::env::chain_extension::FromStatusCode for MyErrorCode {\n    fn from_status_code(status_code: u32) -> Result<(), Self> {\n        match status_code {\n            0 => Ok(()),\n            _ => panic!(\"encountered unknown status code\"),\n        }\n    }\n}\n\n"
        });
    }
    // Trait definition.
    let trait_def = r.chance(1, 3);
    if trait_def {
        comment(r, &mut outer, "");
        outer.push_str(match r.below(3) {
            0 => "#[ink::trait_definition]\n",
            1 => "#[ink::trait_definition(keep_attr = \"foo,bar\")]\n",
            _ => "#[ink::trait_definition(namespace = \"my_ns\")]\n",
        });
        outer.push_str("pub trait Api {\n    /// Reads.\n    #[ink(message)]\n    fn api_get(&self) -> u32;\n\n    #[ink(message, payable, selector = 0xCAFEBABE)]\n    fn api_set(&mut self, value: u32);\n}\n\n");
    }
    if r.chance(1, 5) {
        outer.push_str("#[ink::storage_item]\npub struct Packed {\n    pub s1: u128,\n    pub s2: bool,\n}\n\n");
    }
    o.push_str(&outer);
    comment(r, &mut o, "");
    let args = match (env, r.below(4)) {
        (true, 0) => "(env = crate::CustomEnvironment, keep_attr = \"foo, bar\")",
        (true, _) => "(env = crate::CustomEnvironment)",
        (false, 0) => "(keep_attr = \"foo\")",
        _ => "",
    };
    o.push_str(&format!("#[ink::contract{args}]\n"));
    o.push_str(&format!("{}mod {modname} {{\n", if r.chance(1, 2) { "pub " } else { "" }));
    if r.chance(1, 3) {
        o.push_str("    use ink::storage::Mapping;\n\n");
    }
    o.push_str(mod_uses);
    if cyclic || r.chance(1, 8) {
        o.push_str(*r.pick(&["    use super::*;\n\n", "    use crate::*;\n\n", "    use super::*;\n    use crate::*;\n    pub use self::Exported as Again;\n    type Exported = Again;\n\n"]));
    }
    o.push_str(&inner);
    o.push_str(&types);
    comment(r, &mut o, "    ");
    o.push_str(&format!("    #[ink(storage)]\n    pub struct {name} {{\n        value: bool,\n        total: u32,\n    }}\n\n"));
    o.push_str(&format!("    impl {name} {{\n"));
    comment(r, &mut o, "        ");
    o.push_str(match r.below(3) {
        0 => "        #[ink(constructor)]\n",
        1 => "        #[ink(constructor, payable)]\n",
        _ => "        #[ink(constructor, selector = 0x1)]\n",
    });
    o.push_str("        pub fn new(init_value: bool) -> Self {\n            Self { value: init_value, total: 0 }\n        }\n\n");
    if r.chance(1, 2) {
        o.push_str("        #[ink(constructor)]\n        pub fn default() -> Self {\n            Self::new(Default::default())\n        }\n\n");
    }
    let n_msgs = r.range(1, 3);
    for m in 0..n_msgs {
        comment(r, &mut o, "        ");
        o.push_str(&match r.below(5) {
            0 => "        #[ink(message, payable)]\n".to_owned(),
            1 => format!("        #[ink(message, selector = {})]\n", 100 + m),
            2 => "        #[ink(message)]\n        #[ink(payable)]\n".to_owned(),
            _ => "        #[ink(message)]\n".to_owned(),
        });
        if r.chance(1, 2) {
            o.push_str(&format!("        pub fn msg{m}(&mut self, v: u32) -> bool {{\n            self.total += v;\n"));
            if let Some(ev) = event_names.first() {
                if r.chance(1, 2) {
                    o.push_str(&format!("            let _ = stringify!({ev});\n"));
                }
            }
            if r.chance(1, 4) {
                let call = if r.chance(1, 2) { host_call(r, cfg.v5, style) } else { host_expr(r, cfg.v5) };
                o.push_str(&in_context(r, &call));
            }
            o.push_str("            self.value\n        }\n\n");
        } else {
            o.push_str(&format!("        pub fn msg{m}(&self) -> {} {{\n            todo!()\n        }}\n\n", r.pick(TYPES)));
        }
    }
    o.push_str("    }\n");
    if trait_def {
        o.push_str(&format!("\n    impl crate::Api for {name} {{\n        #[ink(message)]\n        fn api_get(&self) -> u32 {{\n            self.total\n        }}\n\n        #[ink(message, payable, selector = 0xCAFEBABE)]\n        fn api_set(&mut self, value: u32) {{\n            self.total = value;\n        }}\n    }}\n"));
    }
    if r.chance(1, 3) {
        o.push_str("\n    #[cfg(test)]\n    mod tests {\n        use super::*;\n\n        #[ink::test]\n        fn it_works() {\n            assert!(true);\n        }\n    }\n");
    }
    if r.chance(1, 4) {
        o.push_str(&e2e_tests(r, name, cfg.v5));
    }
    o.push_str("}\n");
    if r.chance(1, 5) {
        for _ in 0..r.range(1, 6) {
            o = respace(r, &o);
        }
    }
    o
}

/// Blank space at a place where it means nothing.
fn respace(r: &mut Rng, t: &str) -> String {
    let all: Vec<usize> = t
        .char_indices()
        .filter(|(i, c)| {
            let line = &t[line_start(t, *i)..*i];
            matches!(c, '(' | ')' | ',' | '[' | ']' | '{' | ';') && !line.contains("//") && line.matches('"').count() % 2 == 0
        })
        .map(|(i, _)| i)
        .collect();
    let mut s = t.to_owned();
    if !all.is_empty() {
        let mut at = *r.pick(&all);
        if r.chance(1, 3) {
            // In an attribute.
            let attrs: Vec<usize> = all.iter().copied().filter(|i| t[line_start(t, *i)..].trim_start().starts_with("#[")).collect();
            if !attrs.is_empty() {
                at = *r.pick(&attrs);
            }
        }
        s.insert_str(at + r.below(2), *r.pick(&[" ", "  ", "\n            ", "\t"]));
    }
    s
}

/// Puts statements somewhere inside of other code.
fn in_context(r: &mut Rng, stmts: &str) -> String {
    let s = stmts.trim_end();
    match r.below(14) {
        0 => format!("            if v > 1 {{\n{s}\n            }}\n"),
        1 => format!("            if v == 1 {{\n                v;\n            }} else if v == 2 {{\n{s}\n            }} else {{\n                v;\n            }}\n"),
        2 => format!("            if v == 1 {{\n                v;\n            }} else {{\n{s}\n            }}\n"),
        3 => format!("            match v {{\n                0 => (),\n                _ => {{\n{s}\n                }}\n            }}\n"),
        4 => format!("            loop {{\n{s}\n                break;\n            }}\n"),
        5 => format!("            while self.value {{\n{s}\n            }}\n"),
        6 => format!("            for _i in 0..v {{\n{s}\n            }}\n"),
        7 => format!("            let f = || {{\n{s}\n            }};\n            f();\n"),
        8 => format!("            let _z = {{\n{s}\n                v as u64\n            }};\n"),
        9 => format!("            let Some(_w) = Some(v) else {{\n{s}\n                return false;\n            }};\n"),
        10 => format!("            unsafe {{\n{s}\n            }}\n"),
        _ => format!("{s}\n"),
    }
}

/// A statement with a call to another contract somewhere inside of it.
fn host_expr(r: &mut Rng, v5: bool) -> String {
    let v1 = if v5 { "_v1" } else { "" };
    let e = match r.below(3) {
        0 => format!("self.env().invoke_contract{v1}(&params)"),
        1 => format!("Self::env().instantiate_contract{v1}(&params)"),
        _ => format!("self.env().invoke_contract{v1}(&self.params(v).1)"),
    };
    let p = "            ";
    match r.below(26) {
        0 => format!("{p}if {e}.is_ok() {{\n{p}    v;\n{p}}}\n"),
        1 => format!("{p}if v == 1 {{\n{p}    v;\n{p}}} else if {e}.is_ok() {{\n{p}    v;\n{p}}}\n"),
        2 => format!("{p}if let Ok(_k) = {e} {{\n{p}    v;\n{p}}}\n"),
        3 => format!("{p}while {e}.is_ok() {{\n{p}    break;\n{p}}}\n"),
        4 => format!("{p}for _k in {e} {{\n{p}    v;\n{p}}}\n"),
        5 => format!("{p}match {e} {{\n{p}    Ok(_) => (),\n{p}    Err(_) => (),\n{p}}}\n"),
        6 => format!("{p}match v {{\n{p}    0 if {e}.is_ok() => (),\n{p}    _ => (),\n{p}}}\n"),
        7 => format!("{p}match v {{\n{p}    0 => {e},\n{p}    _ => todo!(),\n{p}}};\n"),
        8 => format!("{p}let _t = (v, {e});\n"),
        9 => format!("{p}let _a = [{e}, {e}];\n"),
        10 => format!("{p}let _a = [{e}; 3];\n"),
        11 => format!("{p}let _s = Pair {{ a: v, b: {e} }};\n"),
        12 => format!("{p}let _s = Pair {{ a: v, ..{e} }};\n"),
        13 => format!("{p}let _n = table[{e}];\n"),
        14 => format!("{p}let _n = {e}[0];\n"),
        15 => format!("{p}let _b = {e} == {e};\n"),
        16 => format!("{p}let _k = {e} as u64;\n"),
        17 => format!("{p}let _k = &{e};\n"),
        18 => format!("{p}let _k = !({e});\n"),
        19 => format!("{p}let _k = {e}?;\n"),
        20 => format!("{p}return {e};\n"),
        21 => format!("{p}let _l = loop {{\n{p}    break {e};\n{p}}};\n"),
        22 => format!("{p}let _f = |_k: u32| {e};\n"),
        23 => format!("{p}helper(v, {e});\n"),
        24 => format!("{p}let _k = {e}.map(|_k| {e}).unwrap().field;\n"),
        _ => format!("{p}self.total = {e};\n"),
    }
}

/// Ways to name what `ink::env` has: the path of items in `ink::env::call`, what the file and the
/// contract import for it, and the path of functions in `ink::env`.
const STYLES: &[(&str, &str, &str, &str)] = &[
    ("ink::env::call::", "", "", "ink::env::"),
    ("::ink::env::call::", "", "", "::ink::env::"),
    ("ink_env::call::", "", "", "ink_env::"),
    ("", "", "    use ink::env::call::{build_call, build_create, Call};\n    use ink::env::{instantiate_contract, invoke_contract};\n\n", ""),
    ("", "", "    use ink::env::call::*;\n    use ink::env::*;\n\n", ""),
    ("call::", "", "    use ink::env::{self, call};\n\n", "env::"),
    ("chain::call::", "", "    use ink::env as chain;\n\n", "chain::"),
    ("@", "", "    use ink::env::call::{build_call as make_call, build_create as make_create, Call as CallAlias};\n\n", "ink::env::"),
    ("", "use ink::env::call::{build_call, build_create, Call};\nuse ink::env::{instantiate_contract, invoke_contract};\n", "    use super::*;\n\n", ""),
    ("", "mod prelude {\n    pub use ink::env::{call::{build_call, build_create, Call}, instantiate_contract, invoke_contract};\n}\n", "    use super::prelude::*;\n\n", ""),
    ("", "mod prelude {\n    pub use ink::env::call::*;\n    pub use ink::env::*;\n}\n", "    use crate::prelude::{build_call, build_create, Call, instantiate_contract, invoke_contract};\n\n", ""),
];

/// A statement calling another contract.
fn host_call(r: &mut Rng, v5: bool, style: usize) -> String {
    let v1 = if v5 { "_v1" } else { "" };
    let item = |name: &str| match (STYLES[style].0, name) {
        ("@", "build_call") => "make_call".to_owned(),
        ("@", "build_create") => "make_create".to_owned(),
        ("@", _) => "CallAlias".to_owned(),
        (p, n) => format!("{p}{n}"),
    };
    let (call, create, ty, host) = (item("build_call"), item("build_create"), item("Call"), STYLES[style].3);
    let args = ".exec_input(ink::env::call::ExecutionInput::new(ink::env::call::Selector::new([1, 2, 3, 4])).push_arg(v))";
    let early = *r.pick(&["", ".gas_limit(5000)", ".transferred_value(10).call_flags(ink::env::CallFlags::default())", ".gas_limit(1)\n                .returns::<bool>()"]);
    let generics = *r.pick(&["::<ink::env::DefaultEnvironment>", "::<Environment>", "::<<Self as Env>::E>"]);
    match r.below(6) {
        0 if r.chance(1, 2) => format!("            let _r = {call}{generics}(){early}.call{v1}(AccountId::from([0x42; 32])){args}.invoke();\n"),
        0 if r.chance(1, 4) => format!("            let _d = {call}{generics}().delegate(Hash::from([0; 32])){args}.returns::<()>().invoke();\n"),
        0 => format!("            let _r = {call}{generics}()\n                .call{v1}(AccountId::from([0x42; 32]))\n                .transferred_value(10)\n                {args}\n                .returns::<()>()\n                .invoke();\n"),
        1 => format!("            let _c = {create}::<OtherRef>(){}\n                .code_hash(Hash::from([0x42; 32]))\n                .endowment(25)\n                .exec_input(ink::env::call::ExecutionInput::new(ink::env::call::Selector::new([1, 2, 3, 4])))\n                .instantiate();\n", if v5 { ".instantiate_v1()" } else { "" }),
        4 => format!("            let _x = {host}invoke_contract{v1}::<ink::env::DefaultEnvironment, (), ()>(&params);\n            let _y = {host}instantiate_contract{v1}::<E, C, A, S, R>(&params);\n"),
        5 => format!("            let _ct = {ty}{}{}::new(AccountId::from([0x42; 32])).gas_limit(5);\n", if v5 { "V1" } else { "" }, if r.chance(1, 2) { generics } else { "" }),
        2 => format!("            let _i = self.env().invoke_contract{v1}(&params); // é\n"),
        _ => format!("            let _i = Self::env().instantiate_contract{v1}(&params);\n"),
    }
}

/// A module with end-to-end tests.
fn e2e_tests(r: &mut Rng, name: &str, v5: bool) -> String {
    let mut o = String::from("\n    #[cfg(all(test, feature = \"e2e-tests\"))]\n    mod e2e_tests {\n        use super::*;\n");
    let import = r.below(5);
    if !v5 {
        o.push_str(match import {
            0 => "        use ink_e2e::build_message;\n",
            1 => "        use ink_e2e::{build_message, alice};\n",
            2 => "        use ink_e2e::{build_message, MessageBuilder};\n",
            _ => "",
        });
    }
    o.push_str("        type E2EResult<T> = std::result::Result<T, Box<dyn std::error::Error>>;\n\n");
    for t in 0..r.range(1, 2) {
        let attr = if v5 {
            *r.pick(&["", "(environment = ink::env::DefaultEnvironment)", "(backend(node))"])
        } else {
            *r.pick(&[
                "", "(additional_contracts = \"adder/Cargo.toml flipper/Cargo.toml\")", "(environment = ink::env::DefaultEnvironment)",
                "(additional_contracts = \"a/Cargo.toml\", environment = ink::env::DefaultEnvironment)", "(keep_attr = \"foo,bar\")",
            ])
        };
        let sig = if v5 { "<Client: E2EBackend>(mut client: Client)" } else { "(mut client: ink_e2e::Client<C, E>)" };
        o.push_str(&format!("        // scenario {t}\n        #[ink_e2e::test{attr}]\n        async fn e2e_works{t}{sig} -> E2EResult<()> {{\n            let mut constructor = {name}Ref::new(false);\n"));
        let value = *r.pick(&["0", "10", "value", "0u128"]);
        let limit = *r.pick(&["None", "Some(1000)", "limit"]);
        let inst = if v5 {
            "(\"flipper\", &ink_e2e::alice(), &mut constructor).submit()".to_owned()
        } else {
            format!("(\"flipper\", &ink_e2e::alice(), constructor, {value}, {limit})")
        };
        o.push_str(&format!("            let acc = client\n                .instantiate{inst}\n                .await\n                .expect(\"instantiate failed\")\n                .account_id;\n"));
        if r.chance(1, 2) {
            let build = if v5 {
                "ink_e2e::create_call_builder::<CallRef>(acc.clone()).get()".to_owned()
            } else if import < 3 {
                "build_message::<CallRef>(acc.clone()).call(|c| c.get())".to_owned()
            } else {
                "ink_e2e::build_message::<CallRef>(acc.clone())\n                .call(|c| c.get())".to_owned()
            };
            o.push_str(&format!("            let get = {build};\n"));
            match (r.below(3), v5) {
                (0, false) => o.push_str(&format!("            let res = client.call_dry_run(&ink_e2e::bob(), &get, {value}, {limit}).await;\n")),
                (0, true) => o.push_str("            let res = client.call(&ink_e2e::bob(), &get).dry_run().await?;\n"),
                (_, false) => o.push_str(&format!("            let res = client.call(&ink_e2e::bob(), get, {value}, {limit}).await.expect(\"get failed\");\n")),
                (_, true) => o.push_str("            let res = client.call(&ink_e2e::bob(), &get).submit().await.expect(\"get failed\");\n"),
            }
            o.push_str("            assert!(res.return_value() == \"é\");\n");
        }
        if r.chance(1, 4) {
            o.push_str(if v5 {
                "            let _b = client.free_balance(acc).await?;\n"
            } else {
                "            let _b = client.balance(acc).await?;\n"
            });
        }
        if r.chance(1, 6) {
            o.push_str("            let _f = client.create_and_fund_account(&ink_e2e::alice(), 10).await;\n");
        }
        o.push_str("            Ok(())\n        }\n\n");
    }
    o.push_str("    }\n");
    o
}

/// A document of any kind, from well-formed contracts to half-typed fragments.
pub fn document(r: &mut Rng) -> String {
    let c = corpus();
    let unicode = r.chance(1, 2);
    let mut t = match r.weighted(&[30, 30, 15, 6, 8, 3]) {
        0 => {
            let v5 = r.chance(1, 2);
            let clean = r.chance(1, 2);
            contract(
                r,
                &DocCfg {
                    v5,
                    unicode,
                    clean,
                    min_events: 0,
                },
            )
        }
        1 => r.pick(&c.snippets).clone(),
        2 => {
            // Several fragments one after the other.
            let n = r.range(2, 3);
            (0..n)
                .map(|_| r.pick(&c.snippets).as_str())
                .collect::<Vec<_>>()
                .join("\n")
        }
        3 => r.pick(&c.fixtures).clone(),
        4 => r.pick(&c.attrs).clone(),
        _ => String::new(),
    };
    if r.chance(1, 40) {
        // Very many problems.
        for i in 0..r.range(20, 130) {
            t.push_str(&format!("{}\nfn f{i}() {{}}\n", r.pick(&["#[ink(event)]", "#[ink(message, topic)]", "#[ink(storage)]"])));
        }
    }
    let n = r.weighted(&[40, 25, 15, 10, 5, 5]);
    for _ in 0..n {
        t = mutate(r, &t);
    }
    if r.chance(1, 8) {
        t = t.replace('\n', "\r\n");
    }
    if t.len() > 24_000 {
        let cut = crate::pos::floor_boundary(&t, 24_000);
        t.truncate(cut);
    }
    t
}

const TOKENS: &[&str] = &[
    "(", ")", "[", "]", "{", "}", ",", "=", "::", ":", "#", "#[", "#[ink", "#[ink(", "#[ink::", "\"", "'",
    "_", " ", "\n", "\t", "pub ", "fn ", "struct ", "mod ", "impl ", "trait ", "self", "&mut self", "ink",
    "ink(event)", "selector = 0xA", "selector = _", "payable", "anonymous", "topic", "é", "漢", "🦑", "\u{feff}",
    "0x", "1", "-1", "//", "/*", "*/", "///", "r#\"", "'a", "crate::", "<", ">", "->", "=>", "!", "@", ";", "default", "\u{2028}", "\u{85}", "\u{3000}",
];

pub fn mutate(r: &mut Rng, t: &str) -> String {
    let c = corpus();
    let cut = |r: &mut Rng, t: &str| crate::pos::floor_boundary(t, r.below(t.len() + 1));
    let mut s = t.to_owned();
    match r.weighted(&[12, 12, 10, 8, 8, 8, 6, 6, 4, 6, 5]) {
        10 => {
            // Unusual blank space, between lines or anywhere.
            let blanks = ["\n", " ", "\t", "\r\n", "\u{2028}", "\u{2029}", "\u{85}", "\u{200e}", "\u{b}", "\u{c}", "\n    "];
            let ins: String = (0..r.range(1, 7)).map(|_| *r.pick(&blanks)).collect();
            let at = if r.chance(1, 4) { cut(r, t) } else { line_start(t, cut(r, t)) };
            s.insert_str(at, &ins);
        }
        0 => {
            // Insert token.
            let at = cut(r, t);
            s.insert_str(at, *r.pick(TOKENS));
        }
        1 => {
            // Delete a short range.
            let a = cut(r, t);
            let b = crate::pos::floor_boundary(t, a + r.range(1, 12));
            s.replace_range(a..b, "");
        }
        2 => {
            // Insert an attribute before a line or anywhere.
            let attr = r.pick(&c.attrs).clone();
            let at = if r.chance(1, 2) {
                cut(r, t)
            } else {
                line_start(t, cut(r, t))
            };
            s.insert_str(at, &attr);
        }
        3 => {
            // Delete lines.
            let a = line_start(t, cut(r, t));
            let mut b = a;
            for _ in 0..r.range(1, 3) {
                b = t[b..].find('\n').map_or(t.len(), |i| b + i + 1);
            }
            s.replace_range(a..b, "");
        }
        4 => {
            // Duplicate lines.
            let a = line_start(t, cut(r, t));
            let mut b = a;
            for _ in 0..r.range(1, 6) {
                b = t[b..].find('\n').map_or(t.len(), |i| b + i + 1);
            }
            let chunk = t[a..b].to_owned();
            s.insert_str(a, &chunk);
        }
        5 => {
            // Insert a fragment.
            let frag = r.pick(&c.snippets).clone();
            let at = line_start(t, cut(r, t));
            s.insert_str(at, &format!("{frag}\n"));
        }
        6 => {
            // Truncate (half-typed file).
            let at = cut(r, t);
            s.truncate(at);
        }
        7 => {
            // Swap one identifier-ish word for another.
            let words = [
                ("event", "storage"), ("message", "constructor"), ("storage", "event"), ("constructor", "message"),
                ("contract", "chain_extension"), ("struct", "enum"), ("&self", "self"), ("pub fn", "fn"),
                ("extension", "function"), ("ink(", "ink::"), ("ink::", "ink("), ("test", "contract"),
                ("-> Self", ""), ("impl", "trait"), ("pub ", ""), ("u32", "impl Clone"), ("topic", "anonymous"),
            ];
            let (a, b) = *r.pick(&words);
            if let Some(i) = nth_match(t, a, r.below(4)) {
                s.replace_range(i..i + a.len(), b);
            }
        }
        8 => {
            // Shift indentation.
            let by: &str = *r.pick(&["\t", "  ", "", "        "]);
            s = t.replace("    ", by);
        }
        _ => {
            let at = cut(r, t);
             let opts: [&str; 7] = ["é", "🦑", "漢字", "/* ✨ */", "// é\n", "\u{200b}", "ß"];
            let ins = *r.pick(&opts);
            s.insert_str(at, ins);
        }
    }
    s
}

fn nth_match(t: &str, pat: &str, n: usize) -> Option<usize> {
    let all: Vec<usize> = t.match_indices(pat).map(|(i, _)| i).collect();
    if all.is_empty() {
        None
    } else {
        Some(all[n % all.len()])
    }
}

fn line_start(t: &str, at: usize) -> usize {
    t[..at].rfind('\n').map_or(0, |i| i + 1)
}

/// A selection inside of blank space, if there is any.
pub fn blank_range(r: &mut Rng, t: &str) -> Option<(usize, usize)> {
    let runs: Vec<(usize, usize)> = t
        .char_indices()
        .filter(|(i, c)| c.is_whitespace() && !t[..*i].ends_with(char::is_whitespace))
        .map(|(i, _)| (i, i + t[i..].find(|c: char| !c.is_whitespace()).unwrap_or(t.len() - i)))
        .filter(|(a, b)| b - a > 2)
        .collect();
    if runs.is_empty() {
        return None;
    }
    // Unusual ones first.
    let odd: Vec<(usize, usize)> = runs.iter().copied().filter(|(a, b)| !t[*a..*b].is_ascii()).collect();
    let (a, b) = if odd.is_empty() || r.chance(1, 2) { *r.pick(&runs) } else { *r.pick(&odd) };
    let x = crate::pos::floor_boundary(t, r.range(a, b));
    let y = crate::pos::floor_boundary(t, r.range(a, b));
    Some((x.min(y), x.max(y)))
}

/// A cursor offset: biased towards attributes and identifiers.
pub fn cursor(r: &mut Rng, t: &str) -> usize {
    if t.is_empty() {
        return 0;
    }
    match r.below(8) {
        0 => crate::pos::floor_boundary(t, r.below(t.len() + 1)),
        1 => t.len(),
        _ => {
            let pats = [
                "#[", "ink", "(", "::", "struct", "fn ", "mod ", "impl", "trait", "selector", "event", "derive",
                "\n", "}", "topic", "enum", "extension", ",", "=", "\"",
            ];
            let p = *r.pick(&pats);
            match nth_match(t, p, r.next() as usize % 64) {
                Some(i) => {
                    let d = r.below(p.len() + 6);
                    crate::pos::floor_boundary(t, i + d)
                }
                None => crate::pos::floor_boundary(t, r.below(t.len() + 1)),
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Manifests.

/// The ink! language version, as the harness models it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub enum Lang {
    V4,
    V5,
}

const REQ_V5: &[&str] = &[
    "5.0.0", "5.0", "^5.0.0", "~5.0", ">=5.0.0", "=5.0.0", ">5.0", "5.1.2", " 5.0.0 ", "5.0.0-rc.1", ">= 5.0", "*", "5", "^5", "=5", "~5", ">=5", ">=5.0, <6",
    "<6, >=5", ">=5 , <6", "5 ", "<6,>= 5 ", "5.*", ">=5.0.0-alpha, <6.0.0", "^ 5.0", "=5.0.1-rc.4",
];
const REQ_V4: &[&str] = &[
    "4.3.0", "4.0", "^4.2", "~4.3.0", "=4.0.0", "4", "^4", "3.4.0", "4.2.1", ">=4.0", ">=4.0, <5", "4.0.0-beta.1", "4.5.0", "4.15.2", "=4.5.1",
    "<5, >=4", ">=4 , <5 ", "4 ", "4.*", "~4.5", ">=4.3, <4.5.5", "= 4.3.5", "0.5.0",
];

/// The `ink` entry, inside of the table named `section` (which is the current one).
/// Returns the lines and, for the table form, the section to put at the end.
fn ink_entry(r: &mut Rng, lang: Lang, section: &str) -> (String, String) {
    let req = match lang {
        Lang::V4 => *r.pick(REQ_V4),
        Lang::V5 => *r.pick(REQ_V5),
    };
    let mut keys: Vec<String> = vec![];
    let source = match (lang, r.below(8)) {
        (Lang::V5, 0) => {
            keys.push("git = \"https://github.com/paritytech/ink\"".to_owned());
            if r.chance(1, 2) {
                keys.push((*r.pick(&["branch = \"master\"", "tag = \"v5.0.0\"", "rev = \"4.3.0\""])).to_owned());
            }
            r.chance(1, 3)
        }
        (Lang::V5, 1) => {
            keys.push("path = \"../ink\"".to_owned());
            r.chance(1, 3)
        }
        (Lang::V4, 0) => {
            keys.push("git = \"https://github.com/paritytech/ink\"".to_owned());
            true
        }
        (Lang::V4, 1) => {
            keys.push("path = \"../ink/crates/ink\"".to_owned());
            true
        }
        _ => true,
    };
    if source {
        keys.push(if r.chance(1, 8) { format!("version = '{req}'") } else { format!("version = \"{req}\"") });
    }
    let only_version = keys.len() == 1 && source;
    if r.chance(1, 2) {
        keys.push(format!("default-features = {}", r.chance(1, 6)));
    }
    if r.chance(1, 6) {
        keys.push("features = [\"ink-debug\", \"no-panic-handler\"]".to_owned());
    }
    if r.chance(1, 12) {
        keys.push("package = \"ink\"".to_owned());
    }
    if r.chance(1, 12) {
        keys.push("optional = false".to_owned());
    }
    for i in (1..keys.len()).rev() {
        let j = r.below(i + 1);
        keys.swap(i, j);
    }
    match r.below(8) {
        0 | 1 if only_version => (format!("ink = \"{req}\"\n"), String::new()),
        2 if only_version => (format!("\"ink\" = '{req}'\n"), String::new()),
        3 => (String::new(), format!("\n[{section}.ink]\n{}\n", keys.join("\n"))),
        4 => (keys.iter().map(|k| format!("ink.{k}\n")).collect(), String::new()),
        _ => (format!("ink = {{ {} }}\n", keys.join(", ")), String::new()),
    }
}

pub fn manifest(r: &mut Rng, lang: Lang, rich: bool) -> String {
    let mut o = String::new();
    let mut tail = String::new();
    if rich && r.chance(1, 3) {
        o.push_str("# Münchhausen 🦑 manifest — do not edit\n");
    }
    o.push_str("[package]\nname = \"my_contract\"\nversion = \"0.1.0\"\nedition = \"2021\"\n");
    if rich && r.chance(1, 3) {
        o.push_str("authors = [\"Jörg <j@example.org>\"] # 漢字\n");
    }
    if rich && r.chance(1, 10) {
        o.push_str("\n[package.metadata.contract]\nink = \"9\"\n");
    }
    let (entry, table) = ink_entry(r, lang, "dependencies");
    // Without any other dependency the table form needs no `[dependencies]`.
    let explicit = table.is_empty() || r.chance(2, 3);
    if explicit {
        o.push_str("\n[dependencies]\n");
        if rich && r.chance(1, 4) {
            // Names that merely look like ink!'s.
            o.push_str(*r.pick(&[
                "ink_prelude = \"4.3.0\"\n", "ink-storage = \"5.0.0\"\n", "inkwell = \"5.0.0\"\n", "ink_env = { version = \"4\", default-features = false }\n",
                "openbrush = { git = \"https://github.com/x/y\", tag = \"v4.0.0\" }\n",
            ]));
        }
        if rich && r.chance(1, 3) {
            o.push_str("serde = \"1\" # keep\n");
        }
        o.push_str(&entry);
    }
    tail.push_str(&table);
    if rich {
        let mut put = |r: &mut Rng, o: &mut String, name: &str, keys: &str| {
            if !explicit || r.chance(1, 8) {
                tail.push_str(&format!("\n[dependencies.{name}]\n{}\n", keys.replace(", ", "\n")));
            } else {
                o.push_str(&format!("{name} = {{ {keys} }}\n"));
            }
        };
        if r.chance(1, 2) {
            put(r, &mut o, "scale", "package = \"parity-scale-codec\", version = \"3\", default-features = false, features = [\"derive\"]");
        }
        if r.chance(1, 2) {
            put(r, &mut o, "scale-info", "version = \"2.6\", default-features = false, features = [\"derive\"], optional = true");
        }
        let extra = r.chance(1, 3);
        if extra {
            put(r, &mut o, "scale-value", "version = \"0.13\", default-features = false");
        }
        if r.chance(1, 3) && explicit {
            o.push_str("# trailing notes — 漢字\nzeroize = { version = \"1\", default-features = false } # last\n");
        }
        if r.chance(1, 2) {
            match r.below(4) {
                0 => tail.push_str("\n[dev-dependencies]\nink_e2e = { version = \"4.2.1\" }\nhex = \"0.4\"\n"),
                1 => tail.push_str("\n[dev-dependencies]\nhex = \"0.4\" # hex\n\n[dev-dependencies.ink_e2e]\nversion = \"~4.3\"\n"),
                2 => tail.push_str("\n[dev-dependencies]\nhex = \"0.4\"\nink = \"9.0\"\n"),
                _ => tail.push_str("\n[dev-dependencies]\nink_e2e = \"4.2.1\"\nhex = \"0.4\"\n"),
            }
        }
        if r.chance(1, 8) {
            tail.push_str("\n[target.'cfg(not(target_arch = \"wasm32\"))'.dependencies]\nink = \"9\"\ntokio = \"1\"\n");
        }
        if r.chance(1, 8) {
            tail.push_str("\n[build-dependencies]\nscale-info = \"2\"\n");
        }
        tail.push_str("\n[lib]\npath = \"lib.rs\"\n");
        if r.chance(2, 3) {
            let more = match (extra, r.below(3)) {
                (true, 0) => "    \"scale-value/std\",\n",
                (true, 1) => "    \"scale-value/std\",\n    \"serde/std\",\n",
                (_, 2) => "    # keep these\n    \"serde/std\",\n    \"hex/std\",\n",
                _ => "",
            };
            let (first, last) = if r.chance(1, 2) { (more, "") } else { ("", more) };
            if r.chance(1, 5) {
                tail.push_str("\n[features]\ndefault = [\"std\"]\nstd = [\"ink/std\", \"scale/std\", \"serde/std\", \"scale-info/std\"]\nink-as-dependency = []\n");
            } else {
                tail.push_str(&format!("\n[features]\ndefault = [\"std\"]\nstd = [\n    \"ink/std\",\n{first}    \"scale/std\",\n    \"scale-info/std\",\n{last}]\nink-as-dependency = []\ne2e-tests = []\n"));
            }
        }
        if r.chance(1, 6) {
            tail.push_str("\n[profile.release]\nopt-level = \"z\" # size\n\n[workspace]\n");
        }
    }
    o.push_str(&tail);
    if rich && r.chance(1, 5) {
        // The last line has no end.
        o.push_str(*r.pick(&["# fin", "# fïn → 🦑", "# 漢字", "# é"]));
    }
    if r.chance(1, 8) {
        o = o.replace('\n', "\r\n");
    }
    o
}

/// Manifests that pin no usable ink! version.
pub fn odd_manifest(r: &mut Rng) -> String {
    (*r.pick(&[
        "",
        "[package]\nname = \"x\"\n",
        "[package\nname = broken",
        "[dependencies]\nserde = \"1\"\n",
        "[package]\nname = \"x\"\n\n[dev-dependencies]\nink = \"5.0.0\"\n",
        "[package]\nname = \"x\"\n\n[build-dependencies]\nink = { version = \"5\" }\n",
        "[package]\nname = \"x\"\n\n[target.'cfg(unix)'.dependencies]\nink = \"5.0.0\"\n",
        "[package]\nname = \"x\"\n\n[workspace.dependencies]\nink = \"5.0.0\"\n",
        "[package]\nname = \"x\"\n\n[package.metadata.dependencies]\nink = \"5.0.0\"\n",
        "[package]\nname = \"x\"\n\n[dependencies]\nink_env = \"5.0.0\"\nInk = \"5\"\n",
        "[project.dependencies]\nink = \"5.0.0\"\n",
        "dependencies = 5\n",
        "[dependencies]\nink = 5\n",
        "[dependencies]\nink = { features = [\"x\"] }\n",
        "[workspace]\nmembers = [\"a\"]\n",
        "[dependencies]\nink = { workspace = false }\n",
        "\u{feff}[dependencies]\nnot toml ====\n",
    ]))
    .to_owned()
}

pub fn workspace_member_manifest(r: &mut Rng) -> String {
    (*r.pick(&[
        "[package]\nname = \"m\"\nversion = \"0.1.0\"\n\n[dependencies]\nink = { workspace = true }\n",
        "[package]\nname = \"m\"\nversion = \"0.1.0\"\n\n[dependencies]\nink = { workspace = true, default-features = false }\n",
        "[package]\nname = \"m\"\nversion = \"0.1.0\"\n\n[dependencies]\nink.workspace = true\n",
    ]))
    .to_owned()
}

pub fn workspace_root_manifest(r: &mut Rng, lang: Lang) -> String {
    let (entry, table) = ink_entry(r, lang, "workspace.dependencies");
    let mut o = String::new();
    if r.chance(1, 4) {
        // The root is itself a package, with its own idea of ink!.
        o.push_str(&format!("[package]\nname = \"root\"\nversion = \"0.1.0\"\n\n[dependencies]\nink = \"{}\"\n\n", r.pick(&["4.0.0", "5.0.0"])));
    }
    o.push_str("[workspace]\nmembers = [\"*\"]\n\n[workspace.dependencies]\n");
    if r.chance(1, 3) {
        o.push_str("serde = \"5.0.0\"\n");
    }
    o.push_str(&entry);
    o.push_str(&table);
    o
}

// ---------------------------------------------------------------------------------------------
// Independent model of "which ink! version does this manifest ask for".

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Dep {
    /// No usable `ink` dependency (or unreadable manifest).
    None,
    Req(String),
    /// `path` or `git` dependency without a version.
    Source,
    /// `workspace = true` (and the version next to it, if any).
    Workspace(Option<String>),
}

pub fn ink_dep(manifest: &str, workspace_table: bool) -> Dep {
    let Ok(table) = manifest.parse::<toml::Table>() else {
        return Dep::None;
    };
    let deps = if workspace_table {
        table
            .get("workspace")
            .and_then(|w| w.get("dependencies"))
            .and_then(toml::Value::as_table)
    } else {
        table.get("dependencies").and_then(toml::Value::as_table)
    };
    match deps.and_then(|d| d.get("ink")) {
        Some(toml::Value::String(s)) => Dep::Req(s.clone()),
        Some(toml::Value::Table(t)) => {
            // Cargo ignores a version next to `workspace = true`.
            if t.get("workspace").and_then(toml::Value::as_bool) == Some(true) {
                Dep::Workspace(t.get("version").and_then(toml::Value::as_str).map(str::to_owned))
            } else if let Some(v) = t.get("version").and_then(toml::Value::as_str) {
                Dep::Req(v.to_owned())
            } else if t.get("path").is_some_and(toml::Value::is_str) || t.get("git").is_some_and(toml::Value::is_str) {
                Dep::Source
            } else {
                Dep::None
            }
        }
        _ => Dep::None,
    }
}

/// Major version a requirement asks for; `*` means latest. A bound from above alone asks for nothing.
pub fn req_lang(req: &str) -> Lang {
    for part in req.split(',') {
        let part = part.trim();
        if part.starts_with('*') {
            return Lang::V5;
        }
        let s = part.trim_start_matches(['^', '~', '=', '>']).trim_start();
        let major: String = s.chars().take_while(char::is_ascii_digit).collect();
        if major == "5" {
            return Lang::V5;
        }
    }
    Lang::V4
}

/// The version for a document, given the manifests found walking up from its directory
/// (nearest first).
pub fn project_lang(chain: &[String]) -> Lang {
    let Some(first) = chain.first() else {
        return Lang::V4;
    };
    let of = |dep: Dep| match dep {
        Dep::Req(r) => Some(req_lang(&r)),
        Dep::Source => Some(Lang::V5),
        Dep::Workspace(_) | Dep::None => None,
    };
    match ink_dep(first, false) {
        Dep::Workspace(own) => chain
            .get(1)
            .and_then(|root| of(ink_dep(root, true)))
            .or(own.map(|r| req_lang(&r)))
            .unwrap_or(Lang::V4),
        dep => of(dep).unwrap_or(Lang::V4),
    }
}

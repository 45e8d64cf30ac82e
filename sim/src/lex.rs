//! A small Rust lexer, good enough to compare well-formed sources token by token.

pub struct Lexed {
    /// Everything but whitespace, attributes and commas in front of closing brackets.
    pub tokens: Vec<String>,
    /// Attributes, whitespace removed.
    pub attrs: Vec<String>,
    pub balanced: bool,
    /// Tokens and attributes in order (attributes are flagged).
    pub flat: Vec<(bool, String)>,
}

/// Splits the module of the given name off (without its attributes).
pub fn split_mod(flat: &[(bool, String)], name: &str) -> (Vec<(bool, String)>, Vec<(bool, String)>) {
    let at = flat.windows(3).position(|x| x[0].1 == "mod" && x[1].1 == name && x[2].1 == "{");
    let Some(at) = at else {
        return (flat.to_vec(), vec![]);
    };
    let mut depth = 0usize;
    let mut end = flat.len();
    for (i, (attr, t)) in flat.iter().enumerate().skip(at) {
        if *attr {
            continue;
        }
        match t.as_str() {
            "{" | "(" | "[" => depth += 1,
            "}" | ")" | "]" => {
                depth = depth.saturating_sub(1);
                if depth == 0 {
                    end = i + 1;
                    break;
                }
            }
            _ => (),
        }
    }
    let mut rest = flat[..at].to_vec();
    rest.extend(flat[end..].iter().cloned());
    (rest, flat[at..end].to_vec())
}

fn split_args(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut depth = 0usize;
    let mut quoted = false;
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '"' => quoted = !quoted,
            '(' | '[' | '{' | '<' if !quoted => depth += 1,
            ')' | ']' | '}' | '>' if !quoted => depth = depth.saturating_sub(1),
            ',' if !quoted && depth == 0 => {
                out.push(std::mem::take(&mut cur));
                continue;
            }
            _ => (),
        }
        cur.push(c);
    }
    out.push(cur);
    out.retain(|x| !x.is_empty());
    out
}

/// What the attributes say, in a form that is the same for ink! 4 and ink! 5 code: pairs of the
/// item they are attached to and a statement about it.
pub fn facts(flat: &[(bool, String)]) -> Vec<(String, String)> {
    let mut out = vec![];
    for (i, (attr, text)) in flat.iter().enumerate() {
        if !attr {
            continue;
        }
        let item = if text.starts_with("#!") {
            "(inner)".to_owned()
        } else {
            item_after(&flat[i + 1..])
        };
        let body = text.trim_start_matches(['#', '!', '[']);
        let body = body.strip_suffix(']').unwrap_or(body);
        let (path, args) = match body.split_once('(') {
            Some((p, a)) => (p, split_args(a.strip_suffix(')').unwrap_or(a))),
            None => (body, vec![]),
        };
        let mut say = |x: String| out.push((item.clone(), x));
        let derive = |say: &mut dyn FnMut(String), cond: &str, list: &[String]| {
            for d in list {
                match d.as_str() {
                    "scale::Encode" => say("scale Encode".to_owned()),
                    "scale::Decode" => say("scale Decode".to_owned()),
                    "scale_info::TypeInfo" => say("scale TypeInfo".to_owned()),
                    d => say(format!("{cond}derive {d}")),
                }
            }
        };
        match path {
            "ink" => {
                for a in &args {
                    say(match a.strip_prefix("extension=") {
                        Some(n) => format!("ink function={n}"),
                        None => format!("ink {a}"),
                    });
                }
            }
            "ink::event" => {
                say("ink event".to_owned());
                for a in &args {
                    say(format!("ink {a}"));
                }
            }
            "ink::scale_derive" => {
                for a in &args {
                    say(format!("scale {a}"));
                }
            }
            "ink::chain_extension" => {
                say("chain extension".to_owned());
                for a in args.iter().filter(|a| !a.starts_with("extension=")) {
                    say(format!("chain extension {a}"));
                }
            }
            "derive" => derive(&mut say, "", &args),
            "cfg_attr" => {
                let cond = args.first().cloned().unwrap_or_default();
                for a in args.iter().skip(1) {
                    match a.strip_prefix("derive(").and_then(|d| d.strip_suffix(')')) {
                        Some(d) => derive(&mut say, &format!("if {cond} "), &split_args(d)),
                        None => say(format!("if {cond} {a}")),
                    }
                }
            }
            _ => say(body.to_owned()),
        }
    }
    out.sort();
    out
}

pub fn is_comment(t: &str) -> bool {
    t.starts_with("//") || t.starts_with("/*")
}

/// Cuts the structs of the given name out: their tokens, and what remains.
pub fn cut_struct(tokens: &[String], name: &str) -> (Vec<Vec<String>>, Vec<String>) {
    let mut items = vec![];
    let mut rest: Vec<String> = vec![];
    let mut i = 0;
    while i < tokens.len() {
        let hit = tokens[i] == "struct" && tokens.get(i + 1).is_some_and(|t| t == name);
        if !hit {
            rest.push(tokens[i].clone());
            i += 1;
            continue;
        }
        let mut item: Vec<String> = vec![];
        // Visibility.
        if rest.last().is_some_and(|t| t == ")") {
            if let Some(at) = rest.iter().rposition(|t| t == "pub").filter(|at| rest.len() - at <= 5) {
                item = rest.split_off(at);
            }
        } else if rest.last().is_some_and(|t| t == "pub") {
            item = rest.split_off(rest.len() - 1);
        }
        let mut depth = 0usize;
        while i < tokens.len() {
            let t = tokens[i].as_str();
            item.push(t.to_owned());
            i += 1;
            match t {
                "(" | "[" | "{" => depth += 1,
                ")" | "]" | "}" => {
                    depth = depth.saturating_sub(1);
                    if depth == 0 && t == "}" {
                        break;
                    }
                }
                ";" if depth == 0 => break,
                _ => (),
            }
        }
        items.push(item);
    }
    (items, rest)
}

/// Name of the item (or field) that follows.
fn item_after(flat: &[(bool, String)]) -> String {
    let mut it = flat.iter().filter(|(attr, t)| !attr && !t.starts_with("//") && !t.starts_with("/*"));
    let mut depth = 0usize;
    while let Some((_, t)) = it.next() {
        match t.as_str() {
            "(" => depth += 1,
            ")" => depth = depth.saturating_sub(1),
            _ if depth > 0 => (),
            "pub" | "async" | "unsafe" | "const" => (),
            "struct" | "enum" | "fn" | "trait" | "mod" | "type" | "union" | "impl" | "use" => {
                return format!("{t} {}", it.next().map_or("", |x| x.1.as_str()));
            }
            t => return t.to_owned(),
        }
    }
    String::new()
}

pub fn lex(text: &str) -> Lexed {
    let c: Vec<char> = text.chars().collect();
    let mut raw: Vec<String> = vec![];
    let mut i = 0;
    let mut ok = true;
    let ident = |x: char| x.is_alphanumeric() || x == '_';
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() {
            i += 1;
        } else if x == '/' && c.get(i + 1) == Some(&'/') {
            let s = i;
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            let t: String = c[s..i].iter().collect();
            raw.push(t.trim_end().to_owned());
        } else if x == '/' && c.get(i + 1) == Some(&'*') {
            let s = i;
            let mut depth = 0;
            loop {
                if i >= c.len() {
                    ok = false;
                    break;
                }
                if c[i] == '/' && c.get(i + 1) == Some(&'*') {
                    depth += 1;
                    i += 2;
                } else if c[i] == '*' && c.get(i + 1) == Some(&'/') {
                    depth -= 1;
                    i += 2;
                    if depth == 0 {
                        break;
                    }
                } else {
                    i += 1;
                }
            }
            raw.push(c[s..i.min(c.len())].iter().collect());
        } else if x == 'r' && matches!(c.get(i + 1), Some('"' | '#')) && {
            let mut j = i + 1;
            while c.get(j) == Some(&'#') {
                j += 1;
            }
            c.get(j) == Some(&'"')
        } {
            let s = i;
            let mut hashes = 0;
            i += 1;
            while c[i] == '#' {
                hashes += 1;
                i += 1;
            }
            i += 1;
            loop {
                if i >= c.len() {
                    ok = false;
                    break;
                }
                if c[i] == '"' && c[i + 1..].iter().take(hashes).filter(|y| **y == '#').count() == hashes {
                    i += 1 + hashes;
                    break;
                }
                i += 1;
            }
            raw.push(c[s..i.min(c.len())].iter().collect());
        } else if x == '"' {
            let s = i;
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1;
                }
                i += 1;
            }
            if i >= c.len() {
                ok = false;
            }
            i += 1;
            raw.push(c[s..i.min(c.len())].iter().collect());
        } else if x == '\'' {
            // Character literal or lifetime.
            let s = i;
            if c.get(i + 1) == Some(&'\\') {
                i += 2;
                while i < c.len() && c[i] != '\'' {
                    i += 1;
                }
                i += 1;
            } else if c.get(i + 2) == Some(&'\'') {
                i += 3;
            } else {
                i += 1;
                while i < c.len() && ident(c[i]) {
                    i += 1;
                }
            }
            raw.push(c[s..i.min(c.len())].iter().collect());
        } else if ident(x) {
            let s = i;
            while i < c.len() && ident(c[i]) {
                i += 1;
            }
            raw.push(c[s..i].iter().collect());
        } else {
            raw.push(x.to_string());
            i += 1;
        }
    }
    // Brackets, attributes.
    let mut tokens: Vec<String> = vec![];
    let mut attrs = vec![];
    let mut flat = vec![];
    let mut stack = vec![];
    let mut i = 0;
    while i < raw.len() {
        let t = raw[i].as_str();
        let bang = raw.get(i + 1).map(String::as_str) == Some("!");
        let open = raw.get(i + 1 + usize::from(bang)).map(String::as_str) == Some("[");
        if t == "#" && open {
            let mut depth = 0;
            let s = i;
            i += 1;
            loop {
                match raw.get(i).map(String::as_str) {
                    Some("[" | "(" | "{") => depth += 1,
                    Some("]" | ")" | "}") => {
                        depth -= 1;
                        if depth == 0 {
                            i += 1;
                            break;
                        }
                    }
                    Some(_) => (),
                    None => {
                        ok = false;
                        break;
                    }
                }
                i += 1;
            }
            attrs.push(raw[s..i.min(raw.len())].concat());
            flat.push((true, raw[s..i.min(raw.len())].concat()));
            continue;
        }
        match t {
            "(" | "[" | "{" => stack.push(t.to_owned()),
            ")" | "]" | "}" => {
                let want = match t {
                    ")" => "(",
                    "]" => "[",
                    _ => "{",
                };
                if stack.pop().as_deref() != Some(want) {
                    ok = false;
                }
                if tokens.last().map(String::as_str) == Some(",") {
                    tokens.pop();
                }
                if flat.last().is_some_and(|x| x.1 == ",") {
                    flat.pop();
                }
            }
            _ => (),
        }
        tokens.push(t.to_owned());
        flat.push((false, t.to_owned()));
        i += 1;
    }
    Lexed {
        flat,
        tokens,
        attrs,
        balanced: ok && stack.is_empty(),
    }
}

/// Is there an attribute that both spans of bytes may belong to?
pub fn same_attribute(text: &str, lo: usize, hi: usize) -> bool {
    let b = text.as_bytes();
    (0..=lo.min(b.len().saturating_sub(1))).rev().filter(|p| b[*p] == b'#').any(|p| {
        let mut depth = 0usize;
        let mut quoted = false;
        let mut i = p + 1;
        while i < b.len() {
            match b[i] {
                b'\\' if quoted => i += 1,
                b'"' => quoted = !quoted,
                b'[' | b'(' | b'{' if !quoted => depth += 1,
                b']' | b')' | b'}' if !quoted => {
                    depth = depth.saturating_sub(1);
                    if depth == 0 {
                        return i + 1 >= hi;
                    }
                }
                c if depth == 0 && !c.is_ascii_whitespace() && c != b'!' => return false,
                _ => (),
            }
            i += 1;
        }
        true
    })
}

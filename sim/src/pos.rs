//! Position arithmetic, written independently of the code under test.

use serde_json::{json, Value};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Enc {
    Utf8,
    Utf16,
    Utf32,
}

impl Enc {
    pub fn name(self) -> &'static str {
        match self {
            Enc::Utf8 => "utf-8",
            Enc::Utf16 => "utf-16",
            Enc::Utf32 => "utf-32",
        }
    }

    pub fn units(self, s: &str) -> u32 {
        match self {
            Enc::Utf8 => s.len() as u32,
            Enc::Utf16 => s.chars().map(|c| c.len_utf16() as u32).sum(),
            Enc::Utf32 => s.chars().count() as u32,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Pos {
    pub line: u32,
    pub col: u32,
}

impl Pos {
    pub fn json(self) -> Value {
        json!({"line": self.line, "character": self.col})
    }
    pub fn parse(v: &Value) -> Option<Pos> {
        Some(Pos {
            line: u32::try_from(v.get("line")?.as_u64()?).ok()?,
            col: u32::try_from(v.get("character")?.as_u64()?).ok()?,
        })
    }
}

pub fn floor_boundary(text: &str, mut off: usize) -> usize {
    off = off.min(text.len());
    while !text.is_char_boundary(off) {
        off -= 1;
    }
    off
}

/// Byte offset -> position. `off` must be a char boundary.
pub fn to_pos(text: &str, off: usize, enc: Enc) -> Pos {
    let before = &text[..off];
    let line = before.matches('\n').count() as u32;
    let start = before.rfind('\n').map_or(0, |i| i + 1);
    Pos {
        line,
        col: enc.units(&text[start..off]),
    }
}

/// Position -> byte offset; `None` when the position does not exist in the text.
pub fn to_off(text: &str, pos: Pos, enc: Enc) -> Option<usize> {
    let mut start = 0usize;
    for _ in 0..pos.line {
        start = start + text[start..].find('\n')? + 1;
    }
    let end = text[start..].find('\n').map_or(text.len(), |i| start + i);
    let mut col = 0u32;
    for (i, c) in text[start..end].char_indices() {
        if col == pos.col {
            return Some(start + i);
        }
        if col > pos.col {
            return None;
        }
        col += match enc {
            Enc::Utf8 => c.len_utf8() as u32,
            Enc::Utf16 => c.len_utf16() as u32,
            Enc::Utf32 => 1,
        };
    }
    (col == pos.col).then_some(end)
}

pub fn range_json(text: &str, start: usize, end: usize, enc: Enc) -> Value {
    json!({"start": to_pos(text, start, enc).json(), "end": to_pos(text, end, enc).json()})
}

/// LSP range -> byte range; `None` when either end does not exist or the range is inverted.
pub fn parse_range(text: &str, v: &Value, enc: Enc) -> Option<(usize, usize)> {
    let s = to_off(text, Pos::parse(v.get("start")?)?, enc)?;
    let e = to_off(text, Pos::parse(v.get("end")?)?, enc)?;
    (s <= e).then_some((s, e))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ByteEdit {
    pub start: usize,
    pub end: usize,
    pub text: String,
}

/// Parses a list of LSP `TextEdit`s against the text they are meant for.
pub fn parse_edits(text: &str, edits: &Value, enc: Enc) -> Result<Vec<ByteEdit>, String> {
    let Some(list) = edits.as_array() else {
        return Err(format!("edits is not an array: {edits}"));
    };
    let mut out = Vec::new();
    for e in list {
        let Some((start, end)) = e.get("range").and_then(|r| parse_range(text, r, enc)) else {
            return Err(format!("edit range does not exist in the document: {e}"));
        };
        let Some(new) = e.get("newText").and_then(Value::as_str) else {
            return Err(format!("edit without newText: {e}"));
        };
        out.push(ByteEdit {
            start,
            end,
            text: new.to_owned(),
        });
    }
    Ok(out)
}

/// Applies edits the way LSP clients do (all ranges refer to the original; inserts at one offset
/// keep array order). Fails when edits overlap.
pub fn apply_edits(text: &str, edits: &[ByteEdit]) -> Result<String, String> {
    let mut order: Vec<usize> = (0..edits.len()).collect();
    order.sort_by_key(|i| (edits[*i].start, edits[*i].end, *i));
    let mut out = String::new();
    let mut at = 0usize;
    let mut last_end = 0usize;
    let mut last = None;
    for i in order {
        let e = &edits[i];
        if e.start < last_end {
            return Err(format!("overlapping edits at byte {}..{} ({last:?}, {e:?})", e.start, e.end));
        }
        last = Some(e);
        out.push_str(&text[at..e.start]);
        out.push_str(&e.text);
        at = e.end;
        last_end = e.end;
    }
    out.push_str(&text[at..]);
    Ok(out)
}

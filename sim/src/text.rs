//! The client's own view of a text document: UTF-16 positions, clamping, edit application.
use serde_json::Value;

pub type Pos = (u32, u32);
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Rng_ {
    pub s: Pos,
    pub e: Pos,
}

#[derive(Clone, Debug)]
pub struct Lines {
    starts: Vec<usize>,
    len: usize,
}
impl Lines {
    pub fn new(text: &str) -> Self {
        let mut starts = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                starts.push(i + 1);
            }
        }
        Lines { starts, len: text.len() }
    }
    pub fn count(&self) -> usize {
        self.starts.len()
    }
    /// Byte range of the line's content, line terminator excluded.
    pub fn content(&self, text: &str, line: usize) -> (usize, usize) {
        let s = self.starts[line];
        let mut e = if line + 1 < self.starts.len() { self.starts[line + 1] - 1 } else { self.len };
        if line + 1 < self.starts.len() && e > s && text.as_bytes()[e - 1] == b'\r' {
            e -= 1;
        }
        (s, e)
    }
    pub fn pos(&self, text: &str, off: usize) -> Pos {
        let line = match self.starts.binary_search(&off) {
            Ok(l) => l,
            Err(l) => l - 1,
        };
        let col: usize = text[self.starts[line]..off].chars().map(|c| c.len_utf16()).sum();
        (line as u32, col as u32)
    }
    pub fn range(&self, text: &str, s: usize, e: usize) -> Rng_ {
        Rng_ { s: self.pos(text, s), e: self.pos(text, e) }
    }
    /// Length of a line in UTF-16 units, terminator excluded.
    pub fn width(&self, text: &str, line: usize) -> u32 {
        let (s, e) = self.content(text, line);
        text[s..e].chars().map(|c| c.len_utf16() as u32).sum()
    }
    /// A column beyond the end of a line that ends with CRLF: its end is before or after the CR.
    pub fn crlf_end(&self, text: &str, p: Pos) -> bool {
        let l = p.0 as usize;
        l < self.starts.len() && p.1 > self.width(text, l) && text[self.content(text, l).1..].starts_with("\r\n")
    }
    /// Offset of a position the way LSP defines it (columns past the end mean the end of the line).
    pub fn offset(&self, text: &str, p: Pos) -> Option<usize> {
        let line = p.0 as usize;
        if line >= self.starts.len() {
            return None;
        }
        let (s, e) = self.content(text, line);
        let mut col = 0u32;
        for (i, c) in text[s..e].char_indices() {
            if col >= p.1 {
                return Some(s + i);
            }
            col += c.len_utf16() as u32;
        }
        Some(e)
    }
    /// The position is the start of a character of the text or an end of line.
    pub fn exact(&self, text: &str, p: Pos) -> Option<usize> {
        let line = p.0 as usize;
        if line >= self.starts.len() {
            return None;
        }
        let s = self.starts[line];
        let e = if line + 1 < self.starts.len() { self.starts[line + 1] } else { self.len };
        let mut col = 0u32;
        for (i, c) in text[s..e].char_indices() {
            if col == p.1 {
                return Some(s + i);
            }
            if c == '\n' {
                return None;
            }
            col += c.len_utf16() as u32;
        }
        (col == p.1).then_some(e)
    }
}

pub fn jpos(v: &Value) -> Option<Pos> {
    Some((v.get("line")?.as_u64()? as u32, v.get("character")?.as_u64()? as u32))
}
pub fn jrange(v: &Value) -> Option<Rng_> {
    Some(Rng_ { s: jpos(v.get("start")?)?, e: jpos(v.get("end")?)? })
}
pub fn pos_json(p: Pos) -> Value {
    serde_json::json!({"line": p.0, "character": p.1})
}
pub fn range_json(r: Rng_) -> Value {
    serde_json::json!({"start": pos_json(r.s), "end": pos_json(r.e)})
}

/// Applies LSP text edits; `Err` says why they are not applicable.
pub fn apply_edits(text: &str, edits: &Value) -> Result<String, String> {
    let lines = Lines::new(text);
    let arr = edits.as_array().ok_or("edits are not an array")?;
    let mut list = vec![];
    for (i, e) in arr.iter().enumerate() {
        let r = e.get("range").and_then(jrange).ok_or("edit without range")?;
        let s = lines.exact(text, r.s).ok_or_else(|| format!("edit start {:?} is not in the document", r.s))?;
        let t = lines.exact(text, r.e).ok_or_else(|| format!("edit end {:?} is not in the document", r.e))?;
        if s > t {
            return Err(format!("edit range is inverted: {r:?}"));
        }
        let new = e.get("newText").and_then(|v| v.as_str()).ok_or("edit without newText")?;
        list.push((s, t, i, new));
    }
    list.sort();
    let mut out = String::with_capacity(text.len());
    let mut at = 0;
    for (s, t, _, new) in list {
        if s < at {
            return Err("edits overlap".into());
        }
        out.push_str(&text[at..s]);
        out.push_str(new);
        at = t;
    }
    out.push_str(&text[at..]);
    Ok(out)
}

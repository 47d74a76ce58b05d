//! Independent tokeniser for WebAssembly text, written from the language specification.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LK {
    LParen,
    RParen,
    Str,
    Word,
    LineC,
    BlockC,
    Other,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct LTok {
    pub s: usize,
    pub e: usize,
    pub k: LK,
}
impl LTok {
    pub fn trivia(&self) -> bool {
        matches!(self.k, LK::LineC | LK::BlockC)
    }
}
fn idchar(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!#$%&'*+-./:<=>?@\\^_`|~".contains(&b)
}

/// Tokens and comments in order; whitespace dropped. `None` when the text is not lexable.
pub fn lex(text: &str) -> Option<Vec<LTok>> {
    let b = text.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let s = i;
        match b[i] {
            b' ' | b'\t' | b'\n' | b'\r' => {
                i += 1;
                continue;
            }
            b';' if b.get(i + 1) == Some(&b';') => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
                let mut e = i;
                if e > s && b[e - 1] == b'\r' {
                    e -= 1;
                }
                out.push(LTok { s, e, k: LK::LineC });
            }
            b'(' if b.get(i + 1) == Some(&b';') => {
                let mut depth = 1;
                i += 2;
                while depth > 0 {
                    if i + 1 >= b.len() {
                        return None;
                    }
                    if b[i] == b'(' && b[i + 1] == b';' {
                        depth += 1;
                        i += 2;
                    } else if b[i] == b';' && b[i + 1] == b')' {
                        depth -= 1;
                        i += 2;
                    } else {
                        i += 1;
                    }
                }
                out.push(LTok { s, e: i, k: LK::BlockC });
            }
            b'(' => {
                i += 1;
                out.push(LTok { s, e: i, k: LK::LParen });
            }
            b')' => {
                i += 1;
                out.push(LTok { s, e: i, k: LK::RParen });
            }
            b'"' => {
                i += 1;
                loop {
                    match b.get(i)? {
                        b'\\' => i += 2,
                        b'"' => {
                            i += 1;
                            break;
                        }
                        _ => i += 1,
                    }
                }
                out.push(LTok { s, e: i, k: LK::Str });
            }
            c if idchar(c) => {
                while i < b.len() && idchar(b[i]) {
                    i += 1;
                }
                out.push(LTok { s, e: i, k: LK::Word });
            }
            _ => {
                i += 1;
                while i < b.len() && !text.is_char_boundary(i) {
                    i += 1;
                }
                out.push(LTok { s, e: i, k: LK::Other });
            }
        }
    }
    Some(out)
}

/// Significant tokens' texts.
pub fn significant<'a>(text: &'a str, toks: &[LTok]) -> Vec<&'a str> {
    toks.iter().filter(|t| !t.trivia()).map(|t| &text[t.s..t.e]).collect()
}
/// Comments' texts, trailing whitespace of each line removed.
pub fn comments(text: &str, toks: &[LTok]) -> Vec<String> {
    toks.iter().filter(|t| t.trivia()).map(|t| text[t.s..t.e].trim_end().to_string()).collect()
}

//! An independent reader of JSON documents (RFC 8259), with the JSON library's documented limits:
//! nesting below 128, numbers within f64, no lone surrogate escapes.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    /// the text of the number
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
    /// the bare grammar: skipped parts of a document may hold escapes and numbers that have no value
    bare: bool,
}

pub fn parse(s: &str) -> Option<J> {
    read(s, false)
}

pub fn grammatical(s: &str) -> bool {
    read(s, true).is_some()
}

fn read(s: &str, bare: bool) -> Option<J> {
    let mut p = P { b: s.as_bytes(), i: 0, bare };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    (p.i == p.b.len()).then_some(v)
}

impl P<'_> {
    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }
    fn ws(&mut self) {
        while let Some(b' ' | b'\t' | b'\n' | b'\r') = self.peek() {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        if self.peek()? == c {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn word(&mut self, w: &str) -> Option<()> {
        if self.b[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Some(())
        } else {
            None
        }
    }
    fn value(&mut self, depth: usize) -> Option<J> {
        match self.peek()? {
            b'n' => self.word("null").map(|_| J::Null),
            b't' => self.word("true").map(|_| J::Bool(true)),
            b'f' => self.word("false").map(|_| J::Bool(false)),
            b'"' => self.string().map(J::Str),
            b'[' => {
                if depth >= 127 && !self.bare {
                    return None;
                }
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.eat(b']').is_some() {
                    return Some(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value(depth + 1)?);
                    self.ws();
                    if self.eat(b',').is_none() {
                        self.eat(b']')?;
                        return Some(J::Arr(v));
                    }
                }
            }
            b'{' => {
                if depth >= 127 && !self.bare {
                    return None;
                }
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.eat(b'}').is_some() {
                    return Some(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(b':')?;
                    self.ws();
                    v.push((k, self.value(depth + 1)?));
                    self.ws();
                    if self.eat(b',').is_none() {
                        self.eat(b'}')?;
                        return Some(J::Obj(v));
                    }
                }
            }
            _ => self.number(),
        }
    }
    fn digits(&mut self) -> Option<()> {
        let s = self.i;
        while self.peek().is_some_and(|c| c.is_ascii_digit()) {
            self.i += 1;
        }
        (self.i > s).then_some(())
    }
    fn number(&mut self) -> Option<J> {
        let s = self.i;
        let _ = self.eat(b'-');
        if self.eat(b'0').is_none() {
            self.digits()?;
        }
        if self.eat(b'.').is_some() {
            self.digits()?;
        }
        if self.eat(b'e').or_else(|| self.eat(b'E')).is_some() {
            let _ = self.eat(b'-').or_else(|| self.eat(b'+'));
            self.digits()?;
        }
        let t = std::str::from_utf8(&self.b[s..self.i]).ok()?;
        (self.bare || t.parse::<f64>().ok()?.is_finite()).then(|| J::Num(t.into()))
    }
    fn hex4(&mut self) -> Option<u32> {
        let t = self.b.get(self.i..self.i + 4)?;
        if !t.iter().all(|c| c.is_ascii_hexdigit()) {
            return None;
        }
        self.i += 4;
        u32::from_str_radix(std::str::from_utf8(t).ok()?, 16).ok()
    }
    fn string(&mut self) -> Option<String> {
        self.eat(b'"')?;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = self.peek()?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).ok(),
                0..=0x1f => return None,
                b'\\' => {
                    let e = self.peek()?;
                    self.i += 1;
                    let c = match e {
                        b'"' | b'\\' | b'/' => e as char,
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let a = self.hex4()?;
                            if self.bare && (0xd800..0xe000).contains(&a) {
                                '?'
                            } else if (0xd800..0xdc00).contains(&a) {
                                self.word("\\u")?;
                                let b = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&b) {
                                    return None;
                                }
                                char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00))?
                            } else {
                                char::from_u32(a)?
                            }
                        }
                        _ => return None,
                    };
                    out.extend(c.to_string().bytes());
                }
                _ => out.push(c),
            }
        }
    }
}

/// the text without whitespace outside strings; None if a string is not closed
pub fn squeeze(s: &str) -> Option<String> {
    let mut out = String::new();
    let (mut quoted, mut esc) = (false, false);
    for c in s.chars() {
        if quoted {
            out.push(c);
            if esc {
                esc = false;
            } else if c == '\\' {
                esc = true;
            } else if c == '"' {
                quoted = false;
            }
        } else if !matches!(c, ' ' | '\t' | '\n' | '\r') {
            out.push(c);
            quoted = c == '"';
        }
    }
    (!quoted).then_some(out)
}

/// does the library's value say what the document says?
pub fn same(j: &J, v: &serde_json::Value) -> bool {
    use serde_json::Value as V;
    match (j, v) {
        (J::Null, V::Null) => true,
        (J::Bool(a), V::Bool(b)) => a == b,
        (J::Str(a), V::String(b)) => a == b,
        (J::Arr(a), V::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (J::Obj(a), V::Object(b)) => {
            // the last of equal keys counts
            a.iter().all(|(k, _)| b.contains_key(k))
                && b.iter().all(|(k, y)| a.iter().rev().find(|e| e.0 == *k).is_some_and(|(_, x)| same(x, y)))
        }
        (J::Num(t), V::Number(n)) => {
            if let Ok(i) = t.parse::<i64>() {
                if t != "-0" {
                    return n.as_i64() == Some(i);
                }
            }
            if let Ok(u) = t.parse::<u64>() {
                return n.as_u64() == Some(u);
            }
            let (Ok(a), Some(b)) = (t.parse::<f64>(), n.as_f64()) else { return false };
            // the library is allowed its documented last-digit inaccuracy
            a == b || (a - b).abs() <= a.abs() * 1e-15 || (a - b).abs() <= 1e-320
        }
        _ => false,
    }
}

/// equal documents, but for the last digits of fractional numbers
pub fn close(a: &J, b: &J, eps: f64) -> bool {
    match (a, b) {
        (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(x, y, eps)),
        (J::Obj(a), J::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && close(&x.1, &y.1, eps)),
        (J::Num(a), J::Num(b)) if a != b => {
            let frac = |t: &str| t.contains(['.', 'e', 'E']);
            let (Ok(x), Ok(y)) = (a.parse::<f64>(), b.parse::<f64>()) else { return false };
            frac(a) && frac(b) && x.is_sign_negative() == y.is_sign_negative() && ((x - y).abs() <= x.abs() * eps || (x - y).abs() <= 1e-320)
        }
        (a, b) => a == b,
    }
}

/// some number is within a hair of the largest finite one
pub fn huge(j: &J) -> bool {
    match j {
        J::Num(t) => t.parse::<f64>().is_ok_and(|f| f.abs() > 1.797e308),
        J::Arr(v) => v.iter().any(huge),
        J::Obj(v) => v.iter().any(|x| huge(&x.1)),
        _ => false,
    }
}

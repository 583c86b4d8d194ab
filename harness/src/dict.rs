//! A dictionary of the literals in the sources under test: numbers, characters and short texts that generated inputs are
//! flavoured with (what fuzzers call an automatic dictionary). It only guides where to look; what is right is
//! decided by the oracles alone.
use crate::{Input, Rng};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::LazyLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Int(u128),
    Float(f64),
    Text(String),
}

pub struct Dict {
    /// literals that the sources have more often than they had when this dictionary was recorded
    pub fresh: Vec<Tok>,
    pub all: Vec<Tok>,
}

const BASE: &str = include_str!("dict_base.txt");
const SOURCES: [&str; 2] = ["/repo/validators/src", "/repo/validators-derive/src"];

pub static DICT: LazyLock<Dict> = LazyLock::new(|| {
    // for trying the flavours out: as if all literals were new
    let known = if std::env::var_os("VH_FRESH").is_some() { "" } else { BASE };
    let base: BTreeMap<&str, usize> = known.lines().filter_map(|l| l.rsplit_once(' ')).filter_map(|(k, n)| Some((k, n.parse().ok()?))).collect();
    let mut d = Dict { fresh: vec![], all: vec![] };
    for (k, n) in literals() {
        let Some(t) = token(&k) else { continue };
        if n > base.get(k.as_str()).copied().unwrap_or(0) {
            d.fresh.push(t.clone());
        }
        d.all.push(t);
    }
    d
});

fn token(k: &str) -> Option<Tok> {
    let (kind, v) = k.split_at_checked(2)?;
    match kind {
        "i:" => v.parse().ok().map(Tok::Int),
        "f:" => v.parse().ok().map(Tok::Float),
        _ => serde_json::from_str(v).ok().map(Tok::Text),
    }
}

/// every literal with the number of times it occurs, in a form that fits a line
pub fn literals() -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for s in SOURCES {
        walk(Path::new(s), &mut m);
    }
    m
}

fn walk(p: &Path, m: &mut BTreeMap<String, usize>) {
    if p.is_dir() {
        for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
            walk(&e.path(), m);
        }
    } else if p.extension().is_some_and(|e| e == "rs") {
        if let Ok(s) = std::fs::read_to_string(p) {
            for k in lex(&s) {
                *m.entry(k).or_default() += 1;
            }
        }
    }
}

fn lex(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let ident = |x: char| x.is_alphanumeric() || x == '_';
    let mut out = vec![];
    let mut i = 0;
    let mut text = |t: String| {
        let n = t.chars().count();
        if n > 0 && n <= 16 && (n == 1 || !t.contains(['{', '}', '\n'])) {
            out.push(format!("t:{}", serde_json::Value::String(t)));
        }
    };
    let mut nums = vec![];
    while i < c.len() {
        match c[i] {
            '/' if at(i + 1) == '/' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '/' if at(i + 1) == '*' => {
                let mut depth = 1;
                i += 2;
                while i < c.len() && depth > 0 {
                    match (c[i], at(i + 1)) {
                        ('*', '/') => {
                            depth -= 1;
                            i += 2;
                        }
                        ('/', '*') => {
                            depth += 1;
                            i += 2;
                        }
                        _ => i += 1,
                    }
                }
            }
            'r' if (i == 0 || !ident(at(i - 1)) || at(i - 1) == 'b') && (at(i + 1) == '"' || at(i + 1) == '#' && matches!(at(i + 2), '"' | '#')) => {
                let mut h = 0;
                i += 1;
                while at(i) == '#' {
                    h += 1;
                    i += 1;
                }
                i += 1;
                let mut t = String::new();
                while i < c.len() && !(c[i] == '"' && (1..=h).all(|k| at(i + k) == '#')) {
                    t.push(c[i]);
                    i += 1;
                }
                i += 1 + h;
                text(t);
            }
            '"' => {
                i += 1;
                let mut t = String::new();
                while i < c.len() && c[i] != '"' {
                    i = escape(&c, i, &mut t);
                }
                i += 1;
                text(t);
            }
            '\'' if at(i + 1) == '\\' || at(i + 2) == '\'' => {
                let mut t = String::new();
                i = escape(&c, i + 1, &mut t);
                i += 1;
                text(t);
            }
            d if d.is_ascii_digit() => {
                let mut t = String::new();
                let hex = d == '0' && matches!(at(i + 1), 'x' | 'b' | 'o');
                while ident(at(i)) || at(i) == '.' && !hex && at(i + 1).is_ascii_digit() && !t.contains('.') {
                    t.push(c[i]);
                    i += 1;
                }
                nums.extend(number(&t.replace('_', "")));
            }
            x if ident(x) => {
                while ident(at(i)) {
                    i += 1;
                }
            }
            _ => i += 1,
        }
    }
    out.extend(nums);
    out
}

/// appends the character at `i`, which may be an escape, and returns the position behind it
fn escape(c: &[char], i: usize, t: &mut String) -> usize {
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    if at(i) != '\\' {
        t.push(at(i));
        return i + 1;
    }
    match at(i + 1) {
        'n' => t.push('\n'),
        't' => t.push('\t'),
        'r' => t.push('\r'),
        '0' => t.push('\0'),
        'x' => {
            let h: String = [at(i + 2), at(i + 3)].iter().collect();
            t.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            return i + 4;
        }
        'u' => {
            let mut j = i + 3;
            let mut h = String::new();
            while j < c.len() && at(j) != '}' {
                h.push(at(j));
                j += 1;
            }
            t.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            return j + 1;
        }
        '\n' => (),
        x => t.push(x),
    }
    i + 2
}

fn number(t: &str) -> Option<String> {
    let radix = |p: &str, r| t.strip_prefix(p).map(|d| (d, r));
    if let Some((d, r)) = radix("0x", 16).or(radix("0b", 2)).or(radix("0o", 8)) {
        let d = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"].iter().find_map(|s| d.strip_suffix(s)).unwrap_or(d);
        return u128::from_str_radix(d, r).ok().map(|n| format!("i:{n}"));
    }
    let end = t.find(|c: char| !c.is_ascii_digit() && c != '.' && c != 'e').unwrap_or(t.len());
    let d = &t[..end];
    if d.contains(['.', 'e']) { d.parse::<f64>().ok().map(|f| format!("f:{f}")) } else { d.parse::<u128>().ok().map(|n| format!("i:{n}")) }
}

/// the text with one place changed to something the sources mention
fn spice(v: &[char], t: &Tok, r: &mut Rng) -> Option<Vec<char>> {
    // places: a run of digits or of letters, a single character, or none
    let runs = |f: fn(char) -> bool| {
        let mut o = vec![];
        let mut i = 0;
        while i < v.len() {
            let mut j = i;
            while j < v.len() && f(v[j]) {
                j += 1;
            }
            if j > i {
                o.push((i, j));
            }
            i = j.max(i + 1);
        }
        o
    };
    let put = |(a, b): (usize, usize), s: &str| v[..a].iter().copied().chain(s.chars()).chain(v[b..].iter().copied()).collect::<Vec<char>>();
    let place = |r: &mut Rng| match r.below(4) {
        0 => (0, 0),
        1 => (v.len(), v.len()),
        2 => {
            let i = r.below(v.len() + 1);
            (i, i)
        }
        _ if v.is_empty() => (0, 0),
        _ => {
            let i = r.below(v.len());
            (i, i + 1)
        }
    };
    match t {
        Tok::Int(n) => {
            let n = near(*n, r);
            match r.below(8) {
                0..=3 => {
                    let d = runs(|c| c.is_ascii_digit());
                    let p = if d.is_empty() { place(r) } else { *r.pick(&d) };
                    Some(put(p, &n.to_string()))
                }
                4 | 5 => {
                    let c = u32::try_from(n).ok().and_then(char::from_u32)?;
                    Some(put(place(r), &c.to_string()))
                }
                6 => {
                    // so many characters in all
                    if v.is_empty() || !(2..=200_000).contains(&n) || n > 2048 && !r.chance(1, 16) {
                        return None;
                    }
                    let i = r.below(v.len());
                    let k = (n as usize).saturating_sub(v.len());
                    let (l, bytes) = (v[i].len_utf8(), r.bool());
                    let k = if bytes { (n as usize).saturating_sub(v.iter().map(|c| c.len_utf8()).sum()) / l } else { k };
                    let mut o = v.to_vec();
                    o.splice(i..i, std::iter::repeat_n(v[i], k));
                    Some(o)
                }
                _ => {
                    // so many of one character in a row, or of one piece
                    if v.is_empty() || !(2..=200_000).contains(&n) || n > 2048 && !r.chance(1, 16) {
                        return None;
                    }
                    let i = r.below(v.len());
                    let w = (1 + r.below(3)).min(v.len() - i);
                    let piece = v[i..i + w].to_vec();
                    let mut o = v.to_vec();
                    o.splice(i..i + w, piece.iter().copied().cycle().take(w * n as usize));
                    Some(o)
                }
            }
        }
        Tok::Float(f) => {
            let d = runs(|c| c.is_ascii_digit() || c == '.' || c == '-');
            let p = if d.is_empty() { place(r) } else { *r.pick(&d) };
            Some(put(p, &(f * *r.pick(&[1.0, 1.0, -1.0, 1.0000001])).to_string()))
        }
        Tok::Text(s) => {
            let s = match r.below(6) {
                0 => s.to_uppercase(),
                1 => s.to_lowercase(),
                _ => s.clone(),
            };
            let p = match r.below(4) {
                0 => {
                    let d = runs(|c| c.is_alphanumeric());
                    if d.is_empty() { place(r) } else { *r.pick(&d) }
                }
                1 => return Some(s.chars().collect()),
                _ => place(r),
            };
            Some(put(p, &s))
        }
    }
}

fn near(n: u128, r: &mut Rng) -> u128 {
    match r.below(6) {
        0 => n.saturating_sub(1),
        1 => n.saturating_add(1),
        _ => n,
    }
}

fn as_int(t: &Tok, r: &mut Rng) -> Option<u128> {
    match t {
        Tok::Int(n) => Some(near(*n, r)),
        Tok::Float(f) if *f >= 0.0 && *f < 1e38 => Some(near(*f as u128, r)),
        Tok::Text(s) => s.chars().next().filter(|_| s.chars().count() == 1).map(|c| c as u128),
        _ => None,
    }
}

fn as_float(t: &Tok, r: &mut Rng) -> Option<f64> {
    let f = match t {
        Tok::Int(n) => *n as f64,
        Tok::Float(f) => *f,
        _ => return None,
    };
    Some(f * if r.bool() { 1.0 } else { -1.0 })
}

pub(crate) const KINDS: &[&str] = &["i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "f32", "f64"];

impl Input {
    /// the same input with something the sources mention in it
    pub fn flavoured(&self, r: &mut Rng) -> Option<Input> {
        let d = &*DICT;
        let from = if !d.fresh.is_empty() && r.chance(7, 8) { &d.fresh } else { &d.all };
        if from.is_empty() {
            return None;
        }
        let t = r.pick(from).clone();
        self.flavour(&t, r)
    }

    pub(crate) fn flavour(&self, t: &Tok, r: &mut Rng) -> Option<Input> {
        let new = match self {
            Input::Str(s) => Input::Str(spice(&s.chars().collect::<Vec<_>>(), t, r)?.into_iter().collect()),
            Input::Bytes(b) => {
                // bytes as characters of the same number
                let v = spice(&b.iter().map(|b| *b as char).collect::<Vec<_>>(), t, r)?;
                Input::Bytes(v.into_iter().map(|c| u8::try_from(c as u32).ok()).collect::<Option<_>>()?)
            }
            Input::I(_) => {
                let n = i128::try_from(as_int(t, r)?).ok()?;
                Input::I(if r.chance(1, 3) { -n } else { n })
            }
            Input::U(_) => Input::U(as_int(t, r)?),
            Input::F64(_) => Input::F64(as_float(t, r)?.to_bits()),
            Input::F32(_) => Input::F32((as_float(t, r)? as f32).to_bits()),
            Input::Char(_) => Input::Char(u32::try_from(as_int(t, r)?).ok().and_then(char::from_u32)?),
            Input::Bool(_) => return None,
            Input::List(l) => {
                let mut v = l.clone();
                // [kind of number, number]
                if let [Input::Str(k), x] = &l[..] {
                    if KINDS.contains(&k.as_str()) {
                        v[1] = x.flavour(t, r)?;
                        return Some(Input::List(v));
                    }
                }
                let at: Vec<usize> = (0..l.len()).filter(|i| matches!(l[*i], Input::Str(_) | Input::Bytes(_) | Input::Char(_) | Input::List(_))).collect();
                if at.is_empty() {
                    return None;
                }
                let i = *r.pick(&at);
                v[i] = l[i].flavour(t, r)?;
                Input::List(v)
            }
        };
        (new != *self).then_some(new)
    }
}

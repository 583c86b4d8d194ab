//! One generic input type for all checks: replayable as JSON and shrinkable.
use serde_json::{Value, json};

#[derive(Clone, Debug, PartialEq)]
pub enum Input {
    Str(String),
    Bytes(Vec<u8>),
    I(i128),
    U(u128),
    F64(u64),
    F32(u32),
    Bool(bool),
    Char(char),
    List(Vec<Input>),
}

impl From<&str> for Input {
    fn from(s: &str) -> Self {
        Input::Str(s.into())
    }
}
impl From<String> for Input {
    fn from(s: String) -> Self {
        Input::Str(s)
    }
}

impl Input {
    pub fn str(&self) -> &str {
        match self {
            Input::Str(s) => s,
            _ => panic!("HARNESS: not a string input: {self:?}"),
        }
    }

    pub fn list(&self) -> &[Input] {
        match self {
            Input::List(s) => s,
            _ => panic!("HARNESS: not a list input: {self:?}"),
        }
    }

    pub fn to_json(&self) -> Value {
        match self {
            Input::Str(s) => json!({ "str": s }),
            Input::Bytes(b) => {
                json!({ "bytes": b.iter().map(|x| format!("{x:02x}")).collect::<String>() })
            }
            Input::I(i) => json!({ "i": i.to_string() }),
            Input::U(u) => json!({ "u": u.to_string() }),
            Input::F64(f) => {
                json!({ "f64": format!("{f:016x}"), "is": f64::from_bits(*f).to_string() })
            }
            Input::F32(f) => {
                json!({ "f32": format!("{f:08x}"), "is": f32::from_bits(*f).to_string() })
            }
            Input::Bool(b) => json!({ "bool": b }),
            Input::Char(c) => json!({ "char": *c as u32 }),
            Input::List(l) => {
                json!({ "list": l.iter().map(|x| x.to_json()).collect::<Vec<_>>() })
            }
        }
    }

    pub fn from_json(v: &Value) -> Option<Input> {
        let o = v.as_object()?;
        let g = |k: &str| o.get(k);
        if let Some(s) = g("str") {
            return Some(Input::Str(s.as_str()?.into()));
        }
        if let Some(s) = g("bytes") {
            let s = s.as_str()?.as_bytes();
            return s
                .chunks(2)
                .map(|c| u8::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok())
                .collect::<Option<Vec<u8>>>()
                .map(Input::Bytes);
        }
        if let Some(s) = g("i") {
            return s.as_str()?.parse().ok().map(Input::I);
        }
        if let Some(s) = g("u") {
            return s.as_str()?.parse().ok().map(Input::U);
        }
        if let Some(s) = g("f64") {
            return u64::from_str_radix(s.as_str()?, 16).ok().map(Input::F64);
        }
        if let Some(s) = g("f32") {
            return u32::from_str_radix(s.as_str()?, 16).ok().map(Input::F32);
        }
        if let Some(s) = g("bool") {
            return s.as_bool().map(Input::Bool);
        }
        if let Some(s) = g("char") {
            return char::from_u32(s.as_u64()? as u32).map(Input::Char);
        }
        if let Some(s) = g("list") {
            return s.as_array()?.iter().map(Input::from_json).collect::<Option<Vec<_>>>().map(Input::List);
        }
        None
    }

    pub fn hash(&self, h: &mut u64) {
        fn eat(h: &mut u64, b: &[u8]) {
            let mut it = b.chunks_exact(8);
            for c in &mut it {
                *h = (*h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                *h ^= *h >> 29;
            }
            let mut last = [0u8; 8];
            let r = it.remainder();
            last[..r.len()].copy_from_slice(r);
            *h = (*h ^ u64::from_le_bytes(last)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            *h ^= *h >> 32;
            *h = h.wrapping_add(b.len() as u64 + 1).wrapping_mul(0x94D0_49BB_1331_11EB);
            *h ^= *h >> 30;
        }
        match self {
            Input::Str(s) => eat(h, s.as_bytes()),
            Input::Bytes(s) => eat(h, s),
            Input::I(i) => eat(h, &i.to_le_bytes()),
            Input::U(i) => eat(h, &i.to_le_bytes()),
            Input::F64(i) => eat(h, &i.to_le_bytes()),
            Input::F32(i) => eat(h, &i.to_le_bytes()),
            Input::Bool(i) => eat(h, &[*i as u8]),
            Input::Char(i) => eat(h, &(*i as u32).to_le_bytes()),
            Input::List(l) => {
                eat(h, &[l.len() as u8, 77]);
                for x in l {
                    x.hash(h);
                }
            }
        }
    }

    /// Simpler candidates, most aggressive first.
    pub fn shrinks(&self) -> Vec<Input> {
        let mut out = vec![];
        match self {
            Input::Str(s) => {
                let c: Vec<char> = s.chars().collect();
                for v in chunk_removals(&c) {
                    out.push(Input::Str(v.into_iter().collect()));
                }
                if c.len() > LONG {
                    return out;
                }
                for i in 0..c.len() {
                    for r in simpler_chars(c[i]) {
                        let mut v = c.clone();
                        v[i] = r;
                        out.push(Input::Str(v.into_iter().collect()));
                    }
                }
            }
            Input::Bytes(b) => {
                for v in chunk_removals(b) {
                    out.push(Input::Bytes(v));
                }
                if b.len() > LONG {
                    return out;
                }
                for i in 0..b.len() {
                    for r in [b'a', b'A', b'0', 0] {
                        if r < b[i] {
                            let mut v = b.clone();
                            v[i] = r;
                            out.push(Input::Bytes(v));
                        }
                    }
                }
            }
            Input::I(i) => {
                for c in [0, i / 2, i / 10, i.saturating_sub(i.signum())] {
                    if c != *i {
                        out.push(Input::I(c));
                    }
                }
            }
            Input::U(i) => {
                for c in [0, i / 2, i / 10, i.saturating_sub(1)] {
                    if c != *i {
                        out.push(Input::U(c));
                    }
                }
            }
            Input::F64(f) => {
                let x = f64::from_bits(*f);
                for c in [0.0, 1.0, x.trunc(), x / 2.0] {
                    if c.to_bits() != *f && c.abs() <= x.abs() {
                        out.push(Input::F64(c.to_bits()));
                    }
                }
            }
            Input::F32(f) => {
                let x = f32::from_bits(*f);
                for c in [0.0, 1.0, x.trunc(), x / 2.0] {
                    if c.to_bits() != *f && c.abs() <= x.abs() {
                        out.push(Input::F32(c.to_bits()));
                    }
                }
            }
            Input::Bool(b) => {
                if *b {
                    out.push(Input::Bool(false));
                }
            }
            Input::Char(c) => {
                for r in simpler_chars(*c) {
                    out.push(Input::Char(r));
                }
            }
            Input::List(l) => {
                for v in chunk_removals(l) {
                    out.push(Input::List(v));
                }
                for i in 0..l.len() {
                    for s in l[i].shrinks() {
                        let mut v = l.clone();
                        v[i] = s;
                        out.push(Input::List(v));
                    }
                }
            }
        }
        out
    }
}

fn simpler_chars(c: char) -> Vec<char> {
    ['a', '1', '0', 'A', ' ']
        .into_iter()
        .filter(|r| {
            let rank = |c: char| match c {
                'a' => 0,
                '1' => 1,
                '0' => 2,
                'A' => 3,
                ' ' => 4,
                c if c.is_ascii_graphic() => 5,
                c if c.is_ascii() => 6,
                _ => 7,
            };
            rank(*r) < rank(c)
        })
        .collect()
}

/// longer inputs are only shrunk by removing large pieces and one piece at either end
const LONG: usize = 600;

fn chunk_removals<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let mut out = vec![];
    let mut n = v.len();
    if n > LONG {
        for k in [1, 2, 3, 5, 8, 16, 64] {
            for e in [v[..n - k].to_vec(), v[k..].to_vec()] {
                out.push(e);
            }
        }
    }
    while n > 0 && (v.len() <= LONG || n * 16 >= v.len()) {
        let mut i = 0;
        while i < v.len() {
            let e = (i + n).min(v.len());
            let mut w = v[..i].to_vec();
            w.extend_from_slice(&v[e..]);
            out.push(w);
            i += n;
        }
        n /= 2;
    }
    out
}

/// thresholds at which a count or a buffer may wrap
const SIZES: &[usize] = &[64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 400, 511, 512, 513, 600, 1000, 1023, 1024, 1025];
const LARGE: &[usize] = &[2048, 4095, 4096, 4097, 5000, 8192, 10000, 16384, 20000, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 131072];

fn stretch<T: Clone>(v: &[T], r: &mut crate::Rng, large: bool) -> Option<Vec<T>> {
    if v.is_empty() {
        return None;
    }
    let want = *r.pick(if large { LARGE } else { SIZES }) + r.below(3);
    let n = match r.below(4) {
        0 | 1 => 1,
        2 => *r.pick(&[2, 3, 4, 8]),
        _ => 1 + r.below(v.len()),
    }
    .min(v.len());
    let i = r.below(v.len() - n + 1);
    let k = want.saturating_sub(v.len()) / n;
    let mut out = Vec::with_capacity(v.len() + k * n);
    out.extend_from_slice(&v[..i]);
    for _ in 0..=k {
        out.extend_from_slice(&v[i..i + n]);
    }
    out.extend_from_slice(&v[i + n..]);
    Some(out)
}

impl Input {
    /// the same text or bytes with a piece of them repeated up to a remarkable length
    pub fn long(&self, r: &mut crate::Rng, large: bool) -> Option<Input> {
        match self {
            Input::Str(s) => stretch(&s.chars().collect::<Vec<_>>(), r, large).map(|v| Input::Str(v.into_iter().collect())),
            Input::Bytes(b) => stretch(b, r, large).map(Input::Bytes),
            _ => None,
        }
    }
}

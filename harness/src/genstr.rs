//! String generation helpers.
use crate::Rng;

pub const WS: &[char] = &[' ', '\t', '\u{a0}', '\u{2003}', '\u{3000}', '\u{85}', '\u{1680}', '\u{2028}'];
/// characters that are special somewhere, plus a few from every UTF-8 length
pub const ODD: &[char] = &[
    '\0', '\u{1}', '\u{8}', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{1f}', ' ', '!', '"', '#', '%', '&', '\'', '(', ')', '*', '+', ',',
    '-', '.', '/', '0', '1', '9', ':', ';', '<', '=', '>', '?', '@', 'A', 'F', 'G', 'Z', '[', '\\', ']', '^', '_', '`', 'a', 'f', 'g',
    'z', '{', '|', '}', '~', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', 'ß', 'é', 'İ', 'ı', 'ſ', 'K', '。', '．', '０', '１', '９', '中', '文',
    '\u{200d}', '\u{200b}', '\u{feff}', '\u{fffd}', '😀', '\u{10ffff}', '́', 'א', 'ا', '٣', 'ａ', '：', '＠', '［', '½', '²', '㏇', '℡',
];

pub fn any_char(r: &mut Rng) -> char {
    match r.below(8) {
        0..=2 => *r.pick(ODD),
        3..=4 => (32 + r.below(95)) as u8 as char,
        5 => r.below(128) as u8 as char,
        6 => char::from_u32(r.below(0x3000) as u32).unwrap_or('x'),
        _ => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
    }
}

pub fn random(r: &mut Rng, max: usize) -> String {
    let n = r.size(max);
    (0..n).map(|_| any_char(r)).collect()
}

pub fn over(r: &mut Rng, alpha: &[char], max: usize) -> String {
    let n = r.size(max);
    (0..n).map(|_| *r.pick(alpha)).collect()
}

pub fn over_n(r: &mut Rng, alpha: &[char], n: usize) -> String {
    (0..n).map(|_| *r.pick(alpha)).collect()
}

/// one to a few character-level edits, with a dictionary of interesting snippets
pub fn mutate(r: &mut Rng, s: &str, dict: &[&str]) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let n = 1 + if r.chance(1, 3) { r.below(3) } else { 0 };
    for _ in 0..n {
        let at = |r: &mut Rng, c: &Vec<char>| match r.below(5) {
            0 => 0,
            1 => c.len(),
            _ => r.range(0, c.len()),
        };
        match r.below(12) {
            0 | 1 => {
                let i = at(r, &c);
                let x = any_char(r);
                c.insert(i, x);
            }
            2 | 3 if !dict.is_empty() => {
                let i = at(r, &c);
                let d: Vec<char> = r.pick(dict).chars().collect();
                c.splice(i..i, d);
            }
            4 | 5 if !c.is_empty() => {
                let i = r.below(c.len());
                c.remove(i);
            }
            6 if !c.is_empty() => {
                let i = r.below(c.len());
                c[i] = any_char(r);
            }
            7 if !c.is_empty() && !dict.is_empty() => {
                let i = r.below(c.len());
                let d: Vec<char> = r.pick(dict).chars().collect();
                c.splice(i..i + 1, d);
            }
            8 if c.len() > 1 => {
                let i = r.below(c.len() - 1);
                c.swap(i, i + 1);
            }
            9 if !c.is_empty() => {
                let i = r.below(c.len());
                let x = c[i];
                c.insert(i, x);
            }
            10 if !c.is_empty() => {
                let i = r.below(c.len());
                let x = c[i];
                c[i] = if x.is_ascii_uppercase() { x.to_ascii_lowercase() } else { x.to_ascii_uppercase() };
            }
            11 if !c.is_empty() => {
                let i = r.range(0, c.len());
                c.truncate(i);
            }
            _ => {
                let i = at(r, &c);
                let x = *r.pick(ODD);
                c.insert(i, x);
            }
        }
    }
    c.into_iter().collect()
}

/// the k-th string over `alpha` in length-then-lexicographic order is not needed; enumerate all of one length
pub fn enumerate(alpha: &[char], len: usize, shard: usize, shards: usize, f: &mut dyn FnMut(String) -> bool) -> bool {
    let total = alpha.len().pow(len as u32);
    let mut k = shard;
    while k < total {
        let mut x = k;
        let mut s = String::with_capacity(len * 2);
        for _ in 0..len {
            s.push(alpha[x % alpha.len()]);
            x /= alpha.len();
        }
        if !f(s) {
            return false;
        }
        k += shards;
    }
    true
}

/// random letter case
pub fn recase(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_string(),
        1 => s.to_ascii_uppercase(),
        2 => s.to_ascii_lowercase(),
        _ => s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

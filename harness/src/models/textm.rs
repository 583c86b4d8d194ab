//! Line and text.
use super::Exp;
use crate::Cfg;

pub fn forbidden(v: &str, c: char) -> bool {
    let u = c as u32;
    if v == "line" {
        (u < 0x20 && u != 9) || u == 0x7f
    } else {
        (u < 0x20 && !(9..=11).contains(&u) && u != 13) || u == 0x7f
    }
}

/// Unicode White_Space
pub fn is_ws(c: char) -> bool {
    matches!(c as u32, 9..=13 | 0x20 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000)
}

pub fn judge(c: &Cfg, s: &str) -> Exp {
    let count = |s: &[char]| -> usize {
        match c.opt("unit") {
            "byte" => s.iter().map(|c| c.len_utf8()).sum(),
            _ => s.len(),
        }
    };
    let chars: Vec<char> = s.chars().collect();
    let bad = chars.iter().any(|x| forbidden(c.v, *x));
    let len = count(&chars);
    let a = chars.iter().position(|x| !is_ws(*x));
    let b = chars.iter().rposition(|x| !is_ws(*x));
    let trimmed = match (a, b) {
        (Some(a), Some(b)) => count(&chars[a..=b]),
        _ => 0,
    };
    let n = |k: &str| c.opt(k).parse::<usize>().ok();
    let mut errs = vec![];
    if n("min").is_some_and(|m| len < m) || n("trimmed_min").is_some_and(|m| trimmed < m) {
        errs.push("TooShort");
    }
    if n("max").is_some_and(|m| len > m) {
        errs.push("TooLong");
    }
    if bad {
        errs.push("Invalid");
    }
    if errs.is_empty() { Exp::Ok(vec![("text", s.to_string())]) } else { Exp::Err(errs) }
}

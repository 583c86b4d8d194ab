//! MAC addresses and UUIDs.
use super::Exp;
use crate::Cfg;

pub fn groups(v: &str) -> &'static [usize] {
    if v == "uuid" { &[8, 4, 4, 4, 12] } else { &[2, 2, 2, 2, 2, 2] }
}

fn digit(c: u8, case: &str) -> Option<u128> {
    let v = match c {
        b'0'..=b'9' => c - b'0',
        b'A'..=b'F' if case != "Lower" => c - b'A' + 10,
        b'a'..=b'f' if case != "Upper" => c - b'a' + 10,
        _ => return None,
    };
    Some(v as u128)
}

pub fn sep(c: &Cfg) -> Option<u8> {
    c.opt("sepbyte").parse().ok()
}

/// the value spelled, or None
pub fn parse(c: &Cfg, s: &str) -> Option<u128> {
    let mut b = s.bytes().peekable();
    let mut val = 0u128;
    for (i, g) in groups(c.v).iter().enumerate() {
        if i > 0 {
            match c.opt("separator") {
                "Must" => {
                    if b.next()? != sep(c).unwrap() {
                        return None;
                    }
                }
                "Disallow" => {}
                _ => {
                    if *b.peek()? == sep(c).unwrap() {
                        b.next();
                    }
                }
            }
        }
        for _ in 0..*g {
            val = val << 4 | digit(b.next()?, c.opt("case"))?;
        }
    }
    if b.next().is_some() { None } else { Some(val) }
}

/// canonical printed form
pub fn print(c: &Cfg, v: u128) -> String {
    let n: usize = groups(c.v).iter().sum();
    let h = if c.opt("case") == "Lower" { format!("{v:0n$x}") } else { format!("{v:0n$X}") };
    if c.opt("separator") == "Disallow" {
        return h;
    }
    spell(c, &h, !0, sep(c).unwrap() as char)
}

/// digits with separators at the boundaries whose bit is set
pub fn spell(c: &Cfg, h: &str, mask: u32, sep: char) -> String {
    let mut out = String::new();
    let mut p = 0;
    for (i, g) in groups(c.v).iter().enumerate() {
        if i > 0 && mask >> (i - 1) & 1 == 1 {
            out.push(sep);
        }
        let e = (p + g).min(h.len());
        out.push_str(&h[p.min(h.len())..e]);
        p = e;
    }
    out.push_str(&h[p.min(h.len())..]);
    out
}

pub fn judge(c: &Cfg, s: &str) -> Exp {
    match parse(c, s) {
        None => Exp::any_err(),
        Some(v) => Exp::Ok(vec![("value", v.to_string()), ("print", print(c, v))]),
    }
}

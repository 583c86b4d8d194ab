//! Booleans, integer and float ranges.
use super::Exp;
use crate::Cfg;

pub fn boolean_word(s: &str) -> Option<bool> {
    const T: &[&str] = &["true", "t", "yes", "y", "on", "1"];
    const F: &[&str] = &["false", "f", "no", "n", "off", "0"];
    let eq = |w: &&str| {
        w.len() == s.len() && w.bytes().zip(s.bytes()).all(|(a, b)| a == b || (b.is_ascii_uppercase() && a == b + 32))
    };
    if T.iter().any(eq) {
        Some(true)
    } else if F.iter().any(eq) {
        Some(false)
    } else {
        None
    }
}

/// an integer of any width we need: sign and magnitude
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Big {
    pub neg: bool,
    pub mag: u128,
}

impl Big {
    pub fn i(v: i128) -> Big {
        Big { neg: v < 0, mag: v.unsigned_abs() }
    }
    pub fn u(v: u128) -> Big {
        Big { neg: false, mag: v }
    }
    pub fn cmp(&self, o: &Big) -> std::cmp::Ordering {
        use std::cmp::Ordering::*;
        match (self.neg, o.neg) {
            (true, false) => Less,
            (false, true) => Greater,
            (false, false) => self.mag.cmp(&o.mag),
            (true, true) => o.mag.cmp(&self.mag),
        }
    }
    pub fn lt(&self, o: &Big) -> bool {
        self.cmp(o).is_lt()
    }
    pub fn text(&self) -> String {
        format!("{}{}", if self.neg { "-" } else { "" }, self.mag)
    }
    /// plain decimal literal (as in attributes)
    pub fn lit(s: &str) -> Option<Big> {
        if s.is_empty() {
            return None;
        }
        let (neg, d) = match s.strip_prefix('-') {
            Some(d) => (true, d),
            None => (false, s),
        };
        let mag: u128 = d.parse().ok()?;
        Some(Big { neg: neg && mag != 0, mag })
    }
}

/// smallest and largest value of an integer type
pub fn bounds(ty: &str) -> (Big, Big) {
    let bits: u32 = match &ty[1..] {
        "size" => usize::BITS,
        n => n.parse().unwrap(),
    };
    if ty.starts_with('i') {
        let m = 1u128 << (bits - 1);
        (Big { neg: true, mag: m }, Big { neg: false, mag: m - 1 })
    } else {
        (Big::u(0), Big::u(if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 }))
    }
}

/// `[+-]?[0-9]+` with its value if it is below 2^128 in magnitude; a sign of the other kind is malformed
pub fn int_text(s: &str, signed: bool) -> Result<Option<Big>, ()> {
    let (neg, d) = if let Some(d) = s.strip_prefix('+') {
        (false, d)
    } else if let (Some(d), true) = (s.strip_prefix('-'), signed) {
        (true, d)
    } else {
        (false, s)
    };
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return Err(());
    }
    let d = d.trim_start_matches('0');
    let mut mag = 0u128;
    for b in d.bytes() {
        mag = match mag.checked_mul(10).and_then(|m| m.checked_add((b - b'0') as u128)) {
            Some(m) => m,
            None => return Ok(None),
        };
    }
    Ok(Some(Big { neg: neg && mag != 0, mag }))
}

#[derive(Clone, Debug)]
pub struct Rule<T> {
    pub kind: &'static str,
    pub min: Option<T>,
    pub max: Option<T>,
    pub inclusive: bool,
}

impl Rule<Big> {
    pub fn of(c: &Cfg) -> Rule<Big> {
        Rule {
            kind: c.opt("kind"),
            min: Big::lit(c.opt("min")),
            max: Big::lit(c.opt("max")),
            inclusive: c.opt("inclusive") != "false",
        }
    }
    /// None: permitted
    pub fn judge(&self, v: &Big) -> Option<&'static str> {
        let below = self.min.as_ref().is_some_and(|m| v.lt(m));
        let above = self.max.as_ref().is_some_and(|m| if self.inclusive { m.lt(v) } else { !v.lt(m) });
        match self.kind {
            "Inside" => {
                if below {
                    Some("TooSmall")
                } else if above {
                    Some("TooLarge")
                } else {
                    None
                }
            }
            "Outside" => {
                if self.min.is_none() && self.max.is_none() {
                    None
                } else if below || above {
                    None
                } else {
                    Some("Forbidden")
                }
            }
            _ => None,
        }
    }
}

impl Rule<f64> {
    pub fn of_f(c: &Cfg) -> Rule<f64> {
        let p = |s: &str| -> Option<f64> {
            if s.is_empty() {
                None
            } else if c.ty == "f32" {
                Some(s.parse::<f32>().unwrap() as f64)
            } else {
                Some(s.parse().unwrap())
            }
        };
        Rule { kind: c.opt("kind"), min: p(c.opt("min")), max: p(c.opt("max")), inclusive: c.opt("inclusive") != "false" }
    }
    pub fn judge(&self, v: f64) -> Option<&'static str> {
        if v.is_nan() {
            return None;
        }
        let below = self.min.is_some_and(|m| v < m);
        let above = self.max.is_some_and(|m| if self.inclusive { v > m } else { v >= m });
        match self.kind {
            "Inside" if below => Some("TooSmall"),
            "Inside" if above => Some("TooLarge"),
            "Outside" if (self.min.is_some() || self.max.is_some()) && !below && !above => Some("Forbidden"),
            _ => None,
        }
    }
}

/// expected result for an integer value offered to an integer validator
pub fn int_value(c: &Cfg, v: &Big) -> Exp {
    let (lo, hi) = bounds(c.ty);
    if v.lt(&lo) {
        return Exp::err("TooSmall");
    }
    if hi.lt(v) {
        return Exp::err("TooLarge");
    }
    match Rule::of(c).judge(v) {
        Some(e) => Exp::err(e),
        None => Exp::Ok(vec![("value", v.text())]),
    }
}

pub fn int_str(c: &Cfg, s: &str) -> Exp {
    match int_text(s, c.ty.starts_with('i')) {
        Err(()) => Exp::err("ParseIntError"),
        Ok(v) => {
            let (lo, hi) = bounds(c.ty);
            match v {
                Some(v) if !v.lt(&lo) && !hi.lt(&v) => int_value(c, &v),
                _ => Exp::Err(vec!["ParseIntError", if s.starts_with('-') { "TooSmall" } else { "TooLarge" }]),
            }
        }
    }
}

pub fn float_bits(f: f64) -> String {
    if f.is_nan() { "nan".into() } else { format!("{:016x}", f.to_bits()) }
}

/// expected result for a float value already in the precision of the field
pub fn float_value(c: &Cfg, v: f64) -> Exp {
    let r = Rule::of_f(c).judge(v);
    let nan = match c.opt("nan") {
        "Must" if !v.is_nan() => Some("NaNMust"),
        "Disallow" if v.is_nan() => Some("NaNDisallow"),
        _ => None,
    };
    match (r, nan) {
        (None, None) => Exp::Ok(vec![("value", float_bits(v))]),
        (a, b) => Exp::Err(a.into_iter().chain(b).collect()),
    }
}

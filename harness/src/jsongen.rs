//! JSON texts.
use crate::{Rng, genstr};

const NUMS: &[&str] = &["0", "-0", "1", "-1", "7", "42", "127", "128", "255", "256", "-128", "-129", "65535", "65536", "2147483647", "2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "-170141183460469231731687303715884105728", "1.0", "1.5", "-0.0", "0.1", "1e2", "1E+2", "1e-2", "1e308", "1e309", "1e999", "-1e999", "1e-999", "5e-324", "1.7976931348623157e308", "3.4028236e38", "3.4028235e39", "16777217", "0.30000000000000004", "123456789012345678901234567890", "01", "-", "+1", ".5", "1.", "1e", "1e+", "0x1", "1_0", "NaN", "Infinity", "-Infinity", "--1", "1 2", "1,2", "１"];
const STRS: &[&str] = &["", "a", "k", "A", "red", "Blue", "true", "1", "\\n", "\\u0041", "\\ud83d\\ude00", "\\ud800", "\\udc00", "\\ud800\\u0041", "\\u00e9", "é", "中", "😀", "\u{7f}", "\u{2028}", "\\/", "\\b\\f\\r\\t", "\\x", "\\", "\\\"", "\t", "\n", "\u{1}", "\\u12", "\\u12G4", " ", "a b", "\\u0000", "\u{feff}", "[]", "{}"];
const WS: &[&str] = &["", "", "", "", " ", "\n", "\t", "\r", "  \n", "\u{c}", "\u{a0}", "/**/"];
pub const DICT: &[&str] = &["{", "}", "[", "]", ",", ":", "\"", "\\", "null", "true", "false", "1", "-", ".", "e", " ", "\n", "\u{0}", "\u{feff}", "'"];

pub fn string(r: &mut Rng) -> String {
    match r.below(4) {
        0 => format!("\"{}\"", r.pick(STRS)),
        1 => format!("\"{}{}\"", r.pick(STRS), r.pick(STRS)),
        2 => serde_json::to_string(&genstr::random(r, 6)).unwrap(),
        _ => format!("\"{}\"", r.pick(&["a", "b", "c", "kind", "x y"])),
    }
}

pub fn number(r: &mut Rng) -> String {
    match r.below(6) {
        0 | 1 => r.pick(NUMS).to_string(),
        2 => ((r.next() as i64) >> r.below(64)).to_string(),
        3 => {
            let f = f64::from_bits(r.next());
            if f.is_finite() { format!("{f:e}") } else { "0".into() }
        }
        4 => format!("{}", (r.next() as u32 as f64) / 1000.0),
        _ => r.below(300).to_string(),
    }
}

pub fn value(r: &mut Rng, depth: usize) -> String {
    let k = if depth == 0 { r.below(6) } else { r.below(9) };
    match k {
        0 => r.pick(&["null", "true", "false", "null", "True", "nul", "nulll"]).to_string(),
        1 | 2 => number(r),
        3 | 4 => string(r),
        5 => r.pick(&["true", "false", "null"]).to_string(),
        6 | 7 => {
            let n = r.size(4);
            let homo = r.below(4);
            let mut v = vec![];
            for _ in 0..n {
                let e = match homo {
                    0 => number(r),
                    1 => string(r),
                    2 => r.below(100).to_string(),
                    _ => value(r, depth - 1),
                };
                v.push(format!("{}{}{}", r.pick(&WS[..9]), e, r.pick(&WS[..9])));
            }
            let mut s = v.join(",");
            if r.chance(1, 40) {
                s.push(',');
            }
            format!("[{s}]")
        }
        _ => {
            let n = r.size(4);
            let mut v = vec![];
            for _ in 0..n {
                let key = match r.below(3) {
                    0 => string(r),
                    _ => format!("\"{}\"", r.pick(&["a", "b", "c", "A", "a"])),
                };
                let e = match r.below(3) {
                    0 => r.below(100).to_string(),
                    1 => string(r),
                    _ => value(r, depth - 1),
                };
                v.push(format!("{}{key}{}:{}{e}", r.pick(&WS[..9]), r.pick(&WS[..9]), r.pick(&WS[..9])));
            }
            format!("{{{}}}", v.join(","))
        }
    }
}

pub fn document(r: &mut Rng) -> String {
    let d = r.below(4);
    let mut s = match r.below(14) {
        0 => {
            // near the nesting limit
            let n = 120 + r.below(14);
            let (o, c) = *r.pick(&[("[", "]"), ("{\"a\":", "}")]);
            let inner = r.pick(&["1", "[]", "{}", "null"]).to_string();
            format!("{}{inner}{}", o.repeat(n), c.repeat(n))
        }
        1 => format!("{{\"a\":{},\"b\":{}}}", number(r), string(r)),
        2 => format!("[{},{}]", number(r), string(r)),
        _ => value(r, d),
    };
    if r.chance(1, 4) {
        s = format!("{}{s}{}", r.pick(WS), r.pick(WS));
    }
    if r.chance(1, 6) {
        s = genstr::mutate(r, &s, DICT);
    }
    s
}

//! Data for each validator of the set: what its formats may offer, valid, nearly valid and of the wrong kind.
use crate::*;
use vh::data::{D, int};

const TREES: &[&str] = &["", "a", "true", "0", "1", "-1", "12", "1.5", "NaN", "null", "\u{feff}", " ", "\u{0}", "é", "🦀", "[]", "{}", "1e400", "::1", "127.0.0.1", "a@b"];

pub fn bytes_text(r: &mut Rng, v: &str) -> String {
    let n = r.size(12);
    let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
    let (alpha, bits): (&[u8], usize) = if v.starts_with("base32") {
        (b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 5)
    } else if v.starts_with("base64_url") {
        (b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", 6)
    } else {
        (b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", 6)
    };
    let mut s = String::new();
    let (mut acc, mut k) = (0u32, 0);
    for x in &b {
        acc = acc << 8 | *x as u32;
        k += 8;
        while k >= bits {
            k -= bits;
            s.push(alpha[(acc >> k) as usize & ((1 << bits) - 1)] as char);
        }
    }
    if k > 0 {
        s.push(alpha[(acc << (bits - k)) as usize & ((1 << bits) - 1)] as char);
    }
    let block = if bits == 5 { 8 } else { 4 };
    match r.below(4) {
        0 => {}
        1 => (0..r.below(block)).for_each(|_| s.push('=')),
        _ => {
            while s.len() % block != 0 {
                s.push('=')
            }
        }
    }
    if r.chance(1, 6) {
        s = genstr::mutate(r, &s, &["=", "A", "/", "_", "-", "+", " "]);
    }
    s
}

pub fn size(r: &mut Rng) -> String {
    let mut s = r.pick(&["0", "1", "7", "8", "9", "1000", "1023", "1024", "1025", "0.5", "1.125", "1000000", "1000001", "1048576", "1048577", "999", "18446744073709551616", "-1", "1e3", "5."]).to_string();
    s += r.pick(&["", " ", "  ", "\t"]);
    s += r.pick(&["", "B", "b", "KB", "Kb", "kb", "kB", "KiB", "Kib", "kib", "MB", "MiB", "mb", "M", "Mi", "Gib", "GB", "TB", "PiB", "EB", "ZB", "YB", "QB", "K", "x"]);
    if r.chance(1, 10) { genstr::mutate(r, &s, &["b", "B", "i", ".", "0"]) } else { s }
}

pub fn hex(r: &mut Rng, digits: usize, seps: &[usize]) -> String {
    let mut s = String::new();
    let n = match r.below(12) { 0 => digits - 1, 1 => digits + 1, _ => digits };
    let case = r.below(3);
    let sep = *r.pick(&["", ":", "-", ":", "-", "", "."]);
    for i in 0..n {
        if seps.contains(&i) && !r.chance(1, 40) {
            s += sep;
        }
        let up = match case { 0 => false, 1 => true, _ => r.chance(1, 10) };
        let c = *r.pick(b"0123456789abcdef") as char;
        s.push(if up { c.to_ascii_uppercase() } else { c });
    }
    if r.chance(1, 10) { genstr::mutate(r, &s, &[":", "-", "g", "0"]) } else { s }
}

pub fn around(r: &mut Rng) -> i128 {
    let c = *r.pick(&[0i128, 1, -1, -5, 5, 9, 1000, 127, -128, 255, 256, 65535, 32767, i32::MAX as i128, u32::MAX as i128, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, i128::MAX, i128::MIN, 1 << 53]);
    if r.chance(1, 20) { r.u128() as i128 } else { c.wrapping_add(r.below(5) as i128 - 2) }
}

pub fn version(r: &mut Rng) -> String {
    let n = |r: &mut Rng| r.pick(&["0", "1", "10", "01", "18446744073709551615", "18446744073709551616", "*", "x", "3"]).to_string();
    let mut s = format!("{}.{}.{}", n(r), n(r), n(r));
    if r.chance(1, 2) {
        s += r.pick(&["-a", "-1", "-01", "-a.1", "+b", "-a+b", "+001", "-", "+", "-rc.1", " "]);
    }
    if r.chance(1, 8) { genstr::mutate(r, &s, &[".", "-", "+", "1"]) } else { s }
}

pub fn requirement(r: &mut Rng) -> String {
    let n = r.range(1, 3);
    let v: Vec<String> = (0..n).map(|_| {
        let mut s = r.pick(&["", "=", ">", ">=", "<", "<=", "~", "^", "= ", "> "]).to_string();
        s += &match r.below(4) { 0 => "1".into(), 1 => "1.2".into(), 2 => "*".into(), _ => version(r) };
        s
    }).collect();
    v.join(*r.pick(&[",", ", ", " "]))
}

/// a text for the validator
pub fn text(r: &mut Rng, v: &str, kind: &str) -> String {
    if r.chance(1, 25) {
        return if r.bool() { genstr::random(r, 12) } else { r.pick(TREES).to_string() };
    }
    match v {
        x if x.starts_with("base") => bytes_text(r, x),
        "bit" | "byte" => size(r),
        "boolean" => {
            let s = *r.pick(&["true", "false", "t", "f", "yes", "no", "y", "n", "on", "off", "1", "0", "TRUE", "True", "tRue", "2", "yess", "ye", "o", "of"]);
            if r.chance(1, 3) { genstr::recase(r, s) } else { s.into() }
        }
        "domain" | "host" | "ip" | "ipv4" | "ipv6" => addrgen::authority(r),
        "email" => mailgen::email(r),
        "url" | "http_url" | "http_ftp_url" => urlgen::url(r),
        "json" => jsongen::document(r),
        "line" | "text" => genstr::over(r, &[' ', 'a', 'b', '\t', '\n', '\r', '\u{0}', '\u{7f}', '\u{200b}', 'é', '🦀', '\u{feff}', '\u{3000}', 'c'], 10),
        "mac_address" => hex(r, 12, &[2, 4, 6, 8, 10]),
        "uuid" => hex(r, 32, &[8, 12, 16, 20]),
        "number" => r.pick(&["0", "1", "-1", "1.5", "1.5000000000000002", "-0", "nan", "NaN", "-nan", "inf", "-infinity", "1e400", "1e-400", "0.1", ".5", "5.", "+1", "1e39", "3.4028235e38", "", "1_0", "١", "0x1"]).to_string(),
        "phone" => {
            let p: &[&str] = if kind == "Phone" { &["TW", "US"] } else { &[] };
            phonegen::number(r, p)
        }
        "regex" => genstr::over(r, &['a', 'b', 'c', 'd', '\n'], 5),
        "semver" => version(r),
        "semver_req" => requirement(r),
        "signed_integer" | "unsigned_integer" => {
            let s = around(r).to_string();
            match r.below(12) { 0 => format!("+{s}"), 1 => format!("0{s}"), 2 => genstr::mutate(r, &s, &["-", "0", " "]), _ => s }
        }
        _ => genstr::random(r, 8),
    }
}

fn float(r: &mut Rng) -> f64 {
    *r.pick(&[0.0, -0.0, 1.0, 1.5, 1.5f64.next_up(), 1.5f64.next_down(), -1.0, (-1.0f64).next_up(), (-1.0f64).next_down(), 1.0f64.next_up(), 0.0f64.next_down(), f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 0.1, 3.4028235677973366e38, 1e39])
}

/// JSON-like data
pub fn tree(r: &mut Rng, depth: usize) -> D {
    match r.below(if depth == 0 { 7 } else { 10 }) {
        0 => D::Bool(r.bool()),
        1 => { let v = around(r); int(r, v) }
        2 => D::F64(float(r).to_bits()),
        3 => D::Str(r.pick(TREES).to_string()),
        4 => if r.bool() { D::None } else { D::Unit },
        5 => D::Str(genstr::random(r, 6)),
        6 => D::Map(vec![(D::Str("a".into()), { let v = r.below(5) as i128; int(r, v) }), (D::Str((*r.pick(&["b", "c"])).into()), if r.bool() { D::Str("x".into()) } else { D::None })]),
        7 => D::Some(Box::new(tree(r, depth - 1))),
        8 => { let n = r.below(5); D::Seq((0..n).map(|_| tree(r, depth - 1)).collect()) }
        _ => { let n = r.below(4); D::Map((0..n).map(|_| (D::Str(r.pick(&["a", "b", "", "c"]).to_string()), tree(r, depth - 1))).collect()) }
    }
}

fn wrong(r: &mut Rng) -> D {
    match r.below(8) {
        0 => D::Char(*r.pick(&['0', '1', 't', 'f', 'T', 'a', '\u{0}', 'é'])),
        1 => D::Bytes((0..r.below(6)).map(|_| r.next() as u8).collect()),
        2 => D::F32((float(r) as f32).to_bits()),
        _ => tree(r, 2),
    }
}

/// data for the validator
pub fn data(r: &mut Rng, w: &Few) -> D {
    if r.chance(1, 12) {
        return wrong(r);
    }
    match w.v {
        x if x.starts_with("base") => {
            let s = text(r, w.v, w.kind);
            if r.bool() { D::Str(s) } else {
                let mut b = s.into_bytes();
                if r.chance(1, 20) && !b.is_empty() {
                    let i = r.below(b.len());
                    b[i] = r.next() as u8;
                }
                D::Bytes(b)
            }
        }
        "bit" | "byte" if r.bool() => {
            let v = *r.pick(&[0u128, 1, 999, 1000, 1001, 1023, 1024, 1025, 1_000_000, 1_000_001, 1 << 20, (1 << 20) + 1, u64::MAX as u128, u64::MAX as u128 + 1, u128::MAX, 1000000000000000000000000000, 1000000000000000000000000001, 8000000000000000000000000000, 8000000000000000000000000001]);
            if r.chance(1, 10) && v <= i128::MAX as u128 { int(r, v as i128) } else { D::U128(v) }
        }
        "boolean" => match r.below(4) {
            0 => D::Bool(r.bool()),
            1 => { let v = if r.chance(3, 4) { r.below(3) as i128 } else { around(r) }; int(r, v) }
            2 => D::Char(*r.pick(&['0', '1', 't', 'f', 'T', 'y', 'N', '2', 'a', '１'])),
            _ => D::Str(text(r, w.v, w.kind)),
        },
        "signed_integer" | "unsigned_integer" if !r.chance(1, 4) => { let v = around(r); if r.chance(1, 20) { D::U128(u128::MAX - r.below(2) as u128) } else { int(r, v) } }
        "number" => match r.below(5) {
            0 => D::F32((float(r) as f32).to_bits()),
            1 | 2 => D::F64(float(r).to_bits()),
            3 => { let v = around(r); int(r, v) }
            _ => D::Str(text(r, w.v, w.kind)),
        },
        "json" => if r.chance(1, 3) { D::Str(text(r, w.v, w.kind)) } else { tree(r, 3) },
        "length" => {
            let n = r.below(6);
            match w.name.split(' ').next() {
                Some("Len2") => D::Map((0..n).map(|_| (D::Str(r.pick(&["a", "b", "", "c"]).to_string()), { let v = r.below(260) as i128; int(r, v) })).collect()),
                Some("Len4") => D::Seq((0..n).map(|_| D::Str(text(r, "line", ""))).collect()),
                _ => D::Seq((0..n).map(|_| { let v = if r.chance(1, 10) { around(r) } else { r.below(4) as i128 }; int(r, v) }).collect()),
            }
        }
        _ => D::Str(text(r, w.v, w.kind)),
    }
}

/// what a JSON parser makes of a value
pub fn from_json(v: &Value) -> D {
    match v {
        Value::Null => D::Unit,
        Value::Bool(b) => D::Bool(*b),
        Value::Number(n) => match (n.as_u64(), n.as_i64(), n.as_f64()) {
            (Some(u), _, _) => D::U64(u),
            (_, Some(i), _) => D::I64(i),
            (_, _, f) => D::F64(f.unwrap_or(0.0).to_bits()),
        },
        Value::String(s) => D::Str(s.clone()),
        Value::Array(a) => D::Seq(a.iter().map(from_json).collect()),
        Value::Object(o) => D::Map(o.iter().map(|(k, x)| (D::Str(k.clone()), from_json(x))).collect()),
    }
}

pub fn generate(plan: &Plan, r: &mut Rng, quick: usize, deep: usize, emit: &mut dyn FnMut(usize, Input) -> bool) {
    for (i, w) in FEW.iter().enumerate() {
        if i % plan.shards == plan.shard {
            for s in TREES {
                if !emit(i, D::Str(s.to_string()).to_input()) {
                    return;
                }
            }
            for v in [0i128, 1, -1, 127, 128, 255, 256, i64::MAX as i128, i64::MAX as i128 + 1, u64::MAX as i128, u64::MAX as i128 + 1] {
                for k in 0..6 {
                    let d = if k == 0 { D::I128(v) } else { int(r, v) };
                    if !emit(i, d.to_input()) {
                        return;
                    }
                }
            }
            let _ = w;
        }
    }
    // phone numbers share one lock: one validator at a time, in a few long runs
    for _ in 0..plan.n(quick, deep) {
        let i = r.below(FEW.len());
        if FEW[i].v == "phone" && !r.chance(1, 4) {
            continue;
        }
        let d = data(r, &FEW[i]);
        if !emit(i, d.to_input()) {
            return;
        }
    }
}

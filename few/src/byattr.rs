//! Inputs around the bounds and options of one configured validator.
use crate::offer as inputs;
use vh::models::num::Big;
use vh::*;

fn step(r: &mut Rng, b: Big) -> Big {
    let d = r.below(5) as i128 - 2;
    if b.neg {
        let m = if d < 0 { b.mag.checked_add(-d as u128) } else { b.mag.checked_sub(d as u128) };
        m.map(|m| Big { neg: m != 0, mag: m }).unwrap_or(b)
    } else if d < 0 && b.mag < d.unsigned_abs() {
        Big::i(-((-d) as i128 - b.mag as i128))
    } else {
        b.mag.checked_add_signed(d).map(Big::u).unwrap_or(b)
    }
}

fn point(r: &mut Rng, c: &Cfg) -> Big {
    let mut p = vec![Big::u(0)];
    for k in ["min", "max"] {
        if let Some(b) = Big::lit(c.opt(k)) {
            p.extend([b, b, b]);
        }
    }
    let b = *r.pick(&p);
    if r.chance(1, 8) { Big::i(r.u128() as i128 >> r.below(127)) } else { step(r, b) }
}

pub fn input(r: &mut Rng, c: &Cfg) -> Input {
    match c.v {
        "signed_integer" | "unsigned_integer" => {
            let b = point(r, c);
            if r.bool() {
                return b.text().into();
            }
            match (c.v == "signed_integer", b.neg) {
                (true, true) => Input::I((b.mag as i128).wrapping_neg()),
                (true, false) => i128::try_from(b.mag).map(Input::I).unwrap_or_else(|_| b.text().into()),
                (false, false) => Input::U(b.mag),
                _ => b.text().into(),
            }
        }
        "number" => {
            let mut p = vec![0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, -1e30, 1e30];
            for k in ["min", "max"] {
                if let Ok(v) = c.opt(k).parse::<f64>() {
                    p.extend([v, v, v, v.next_up(), v.next_down(), v as f32 as f64, (v as f32).next_up() as f64, (v as f32).next_down() as f64, v + 1.0, v - 1.0]);
                }
            }
            let v = *r.pick(&p);
            match r.below(3) {
                0 => Input::F64(v.to_bits()),
                1 => Input::F32((v as f32).to_bits()),
                _ => format!("{v}").into(),
            }
        }
        "bit" | "byte" => {
            let b = point(r, c);
            match r.below(4) {
                0 if !b.neg => Input::U(b.mag),
                1 => format!("{} {}", b.text(), r.pick(&["b", "B", "kb", "KB", "KiB", "kib", "Mb", "MB"])).into(),
                2 => format!("{}{}", b.mag / 8, r.pick(&["B", "b", "KB", "KiB"])).into(),
                _ => b.text().into(),
            }
        }
        "length" => {
            let n = (point(r, c).mag % 40) as usize;
            Input::Bytes((0..n).map(|_| r.next() as u8).collect())
        }
        "line" | "text" => {
            if r.bool() {
                return inputs::text(r, c.v, "").into();
            }
            let n = (point(r, c).mag % 40) as usize;
            let mut s: Vec<char> = (0..n).map(|_| *r.pick(&['a', 'a', 'é', '中', '🦀', ' ', '\u{3000}'])).collect();
            for _ in 0..r.below(3) {
                if r.bool() {
                    s.insert(0, ' ')
                } else {
                    s.push('\u{2003}')
                }
            }
            s.into_iter().collect::<String>().into()
        }
        "mac_address" | "uuid" => {
            let n = if c.v == "uuid" { 32 } else { 12 };
            let mut h: String = (0..n).map(|_| *r.pick(&['0', '9', 'a', 'f', 'c'])).collect();
            match r.below(4) {
                0 => h = vh::genstr::recase(r, &h),
                1 => h = h.to_uppercase(),
                _ => {}
            }
            let sep = if r.chance(1, 3) { *r.pick(&[':', '-', '_', '.']) } else { vh::models::hexid::sep(c).unwrap_or(b':') as char };
            let mask = match r.below(3) {
                0 => 0,
                1 => !0,
                _ => r.next() as u32,
            };
            let s = vh::models::hexid::spell(c, &h, mask, sep);
            if r.chance(1, 8) { vh::genstr::mutate(r, &s, &["0", ":", "-"]).into() } else { s.into() }
        }
        v if v.starts_with("base") => {
            let s = inputs::bytes_text(r, v);
            if r.bool() { Input::Bytes(s.into_bytes()) } else { s.into() }
        }
        "phone" => {
            let cs: Vec<&str> = c.opt("countries").split(',').filter(|x| !x.is_empty()).collect();
            vh::phonegen::number(r, &cs).into()
        }
        v => inputs::text(r, v, "").into(),
    }
}

//! Phone-number texts, from the example numbers of the phone-number library's metadata.
use crate::{Rng, genstr};
use phonenumber::metadata::{DATABASE, Descriptor, Metadata};
use std::collections::BTreeMap;
use std::sync::LazyLock;

pub struct Region {
    pub id: String,
    pub code: u16,
    pub prefix: Option<String>,
    pub examples: Vec<String>,
}

pub static REGIONS: LazyLock<BTreeMap<String, Region>> = LazyLock::new(|| {
    let mut m = BTreeMap::new();
    for x in DATABASE.iter() {
        let x: &Metadata = x;
        let d = x.descriptors();
        let all: [Option<&Descriptor>; 12] = [
            Some(d.general()),
            d.fixed_line(),
            d.mobile(),
            d.toll_free(),
            d.premium_rate(),
            d.shared_cost(),
            d.personal_number(),
            d.voip(),
            d.pager(),
            d.uan(),
            d.emergency(),
            d.voicemail(),
        ];
        let mut e: Vec<String> = all.iter().flatten().filter_map(|d| d.example()).map(|s| s.to_string()).collect();
        e.sort();
        e.dedup();
        m.insert(x.id().to_string(), Region { id: x.id().into(), code: x.country_code(), prefix: x.national_prefix().map(Into::into), examples: e });
    }
    assert!(m.len() > 200, "HARNESS: phone metadata");
    m
});

pub const DICT: &[&str] = &["+", "00", "011", "0", "1", "-", " ", "(", ")", ".", "ext.", " ext 12", ";ext=9", "x5", "#", ",", "＋", "０", "٣", "tel:", ";phone-context=+1", "~", "/", "+886", "+44", "+1", "a", "A"];

/// `prefer`: region ids worth aiming at
pub fn number(r: &mut Rng, prefer: &[&str]) -> String {
    let keys: Vec<&String> = REGIONS.keys().collect();
    let id = if !prefer.is_empty() && r.chance(19, 20) { r.pick(prefer).to_string() } else { r.pick(&keys).to_string() };
    let Some(x) = REGIONS.get(&id) else { return genstr::random(r, 12) };
    let mut n: Vec<char> = if x.examples.is_empty() { "123456789".chars().collect() } else { r.pick(&x.examples).chars().collect() };
    // vary the digits, the last ones most
    if r.chance(2, 3) {
        for _ in 0..1 + r.below(4) {
            let i = n.len() - 1 - r.below(n.len()) * r.below(3) / 2;
            let i = i.min(n.len() - 1);
            n[i] = (b'0' + r.below(10) as u8) as char;
        }
    }
    match r.below(12) {
        0 => {
            n.pop();
        }
        1 => n.push((b'0' + r.below(10) as u8) as char),
        _ => {}
    }
    let nsn: String = n.iter().collect();
    let lead = r.below(12);
    let mut s = match lead {
        0..=3 => format!("+{}{nsn}", x.code),
        4 => format!("+{} {nsn}", x.code),
        5 => format!("{}{}{nsn}", r.pick(&["00", "011", "0011", "010", "002", "810", "8~10", "0", "++", "＋", "+ "]), x.code),
        6 | 7 => format!("{}{nsn}", x.prefix.as_deref().unwrap_or("")),
        8 => format!("{}{nsn}", r.pick(&["0", "1", "8", "06", "01", "(0)", "15", "044"])),
        9 => format!("{}{nsn}", x.code),
        10 => format!("+{}{}{nsn}", x.code, x.prefix.as_deref().unwrap_or("0")),
        _ => nsn.clone(),
    };
    if r.chance(1, 3) {
        // separators
        let mut t = String::new();
        let sep = *r.pick(&["-", " ", ".", "/", "  ", "\u{a0}", "–", "(", ") ", "~"]);
        for (i, c) in s.chars().enumerate() {
            if i > 1 && r.chance(1, 4) {
                t.push_str(sep);
            }
            t.push(c);
        }
        s = t;
    }
    if r.chance(1, 12) {
        s.push_str(r.pick(&[" ext. 12", "x5", ";ext=123", "#7", " extension 9", ";phone-context=+44", ",,1"]));
    }
    if r.chance(1, 20) {
        s = s.chars().map(|c| if c.is_ascii_digit() && r.bool() { char::from_u32(c as u32 - 0x30 + r.pick(&[0xff10u32, 0x660, 0x6f0])).unwrap() } else { c }).collect();
    }
    if r.chance(1, 10) {
        s = genstr::mutate(r, &s, DICT);
    }
    s
}

//! Addresses, names, ports: an independent reading of the documented grammar.
use super::Exp;
use crate::{Cfg, Fields, Tri};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};

/// base, prefix length
const V4_LOCAL: &[([u8; 4], u32)] = &[
    ([10, 0, 0, 0], 8),
    ([172, 16, 0, 0], 12),
    ([192, 168, 0, 0], 16),
    ([127, 0, 0, 0], 8),
    ([169, 254, 0, 0], 16),
    ([255, 255, 255, 255], 32),
    ([192, 0, 2, 0], 24),
    ([198, 51, 100, 0], 24),
    ([203, 0, 113, 0], 24),
    ([0, 0, 0, 0], 32),
];

const V6_LOCAL: &[(u128, u32)] = &[
    (0, 128),
    (1, 128),
    (0xfe80 << 112, 10),
    (0xfec0 << 112, 10),
    (0xfc00 << 112, 7),
    (0x2001_0db8 << 96, 32),
];

pub fn v4_blocks() -> Vec<(u32, u32)> {
    V4_LOCAL.iter().map(|(b, p)| (u32::from_be_bytes(*b), *p)).collect()
}

pub fn v6_blocks() -> Vec<(u128, u32)> {
    let mut v = V6_LOCAL.to_vec();
    v.push((0xff00 << 112, 8));
    v.push((0, 96));
    v.push((0xffff << 32, 96));
    v
}

pub fn local4(a: Ipv4Addr) -> bool {
    let x = u32::from_be_bytes(a.octets());
    v4_blocks().iter().any(|(b, p)| (x ^ b).checked_shr(32 - p).unwrap_or(0) == 0)
}

pub fn local6(a: Ipv6Addr) -> bool {
    let x = u128::from_be_bytes(a.octets());
    if x >> 120 == 0xff {
        // multicast: the scope is the low nibble of the second byte; 14 is global
        return (x >> 112) & 0xf != 14;
    }
    if V6_LOCAL.iter().any(|(b, p)| (x ^ b).checked_shr(128 - p).unwrap_or(0) == 0) {
        return true;
    }
    if x >> 32 == 0 || x >> 32 == 0xffff {
        return local4(Ipv4Addr::from((x as u32).to_be_bytes()));
    }
    false
}

pub fn local_ip(a: IpAddr) -> bool {
    match a {
        IpAddr::V4(a) => local4(a),
        IpAddr::V6(a) => local6(a),
    }
}

pub fn local_name(s: &str) -> bool {
    let s = s.strip_suffix('.').unwrap_or(s);
    s.len() == 9 && s.bytes().map(|b| b.to_ascii_lowercase()).eq("localhost".bytes())
}

/// dotted quad, no leading zeros
pub fn v4(s: &str) -> Option<Ipv4Addr> {
    let p: Vec<&str> = s.split('.').collect();
    if p.len() != 4 {
        return None;
    }
    let mut o = [0u8; 4];
    for (i, x) in p.iter().enumerate() {
        if x.is_empty() || x.len() > 3 || !x.bytes().all(|b| b.is_ascii_digit()) || x.len() > 1 && x.starts_with('0') {
            return None;
        }
        o[i] = u8::try_from(x.parse::<u32>().unwrap()).ok()?;
    }
    Some(Ipv4Addr::from(o))
}

/// RFC 4291 text, no zone
pub fn v6(s: &str) -> Option<Ipv6Addr> {
    // split off an embedded dotted quad
    let mut tail = vec![];
    let mut s = s.to_string();
    if s.contains('.') {
        let i = s.rfind(':')?;
        let o = v4(&s[i + 1..])?.octets();
        tail = vec![u16::from_be_bytes([o[0], o[1]]), u16::from_be_bytes([o[2], o[3]])];
        s.truncate(i + 1);
        if !s.ends_with("::") {
            s.pop();
            if s.is_empty() {
                return None;
            }
        }
    }
    fn groups(s: &str) -> Option<Vec<u16>> {
        if s.is_empty() {
            return Some(vec![]);
        }
        s.split(':')
            .map(|g| if !g.is_empty() && g.len() <= 4 && g.bytes().all(|b| b.is_ascii_hexdigit()) { u16::from_str_radix(g, 16).ok() } else { None })
            .collect()
    }
    let all: Vec<u16> = match s.find("::") {
        Some(i) => {
            let mut a = groups(&s[..i])?;
            let mut b = groups(&s[i + 2..])?;
            b.extend(&tail);
            if a.len() + b.len() > 7 {
                return None;
            }
            a.resize(8 - b.len(), 0);
            a.extend(b);
            a
        }
        None => {
            let mut a = groups(&s)?;
            a.extend(&tail);
            a
        }
    };
    let a: [u16; 8] = all.try_into().ok()?;
    Some(Ipv6Addr::from(a))
}

/// decimal digits with a value up to 65535
pub fn port(s: &str) -> Option<u16> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let t = s.trim_start_matches('0');
    if t.len() > 5 {
        return None;
    }
    u16::try_from(if t.is_empty() { 0 } else { t.parse::<u32>().unwrap() }).ok()
}

/// `[v6]`, `[v6]:port`, `v6`
pub fn v6_port(s: &str) -> Option<(Ipv6Addr, Option<u16>)> {
    if let Some(rest) = s.strip_prefix('[') {
        let i = rest.find(']')?;
        let a = v6(&rest[..i])?;
        return match &rest[i + 1..] {
            "" => Some((a, None)),
            t => Some((a, Some(port(t.strip_prefix(':')?)?))),
        };
    }
    Some((v6(s)?, None))
}

pub fn v4_port(s: &str) -> Option<(Ipv4Addr, Option<u16>)> {
    match s.split_once(':') {
        Some((a, p)) => Some((v4(a)?, Some(port(p)?))),
        None => Some((v4(s)?, None)),
    }
}

pub fn auth(host: String, port: Option<u16>) -> String {
    match port {
        Some(p) => format!("{host}:{p}"),
        None => host,
    }
}

pub fn bracketed(a: IpAddr) -> String {
    match a {
        IpAddr::V4(a) => a.to_string(),
        IpAddr::V6(a) => format!("[{a}]"),
    }
}

pub fn port_text(p: Option<u16>) -> String {
    p.map(|x| x.to_string()).unwrap_or_default()
}

pub fn tri_errs(t: Tri, present: bool, must: &'static str, disallow: &'static str, errs: &mut Vec<&'static str>) {
    match t {
        Tri::Must if !present => errs.push(must),
        Tri::Disallow if present => errs.push(disallow),
        _ => {}
    }
}

/// ip, ipv4, ipv6
pub fn judge_ip(c: &Cfg, s: &str) -> Exp {
    let p: Option<(IpAddr, Option<u16>)> = match c.v {
        "ipv4" => v4_port(s).map(|(a, p)| (a.into(), p)),
        "ipv6" => v6_port(s).map(|(a, p)| (a.into(), p)),
        _ => v6_port(s).map(|(a, p)| (a.into(), p)).or_else(|| v4_port(s).map(|(a, p)| (a.into(), p))),
    };
    let Some((a, p)) = p else { return Exp::any_err() };
    let mut errs = vec![];
    tri_errs(c.tri("local"), local_ip(a), "LocalMust", "LocalDisallow", &mut errs);
    tri_errs(c.tri("port"), p.is_some(), "PortMust", "PortDisallow", &mut errs);
    if errs.is_empty() { Exp::Ok(vec![("ip", a.to_string()), ("port", port_text(p)), ("auth", auth(bracketed(a), p))]) } else { Exp::Err(errs) }
}

/// The ASCII form of an internationalised name, or None.
pub fn ascii_name(s: &str) -> Option<String> {
    let plain = s.is_ascii() && !s.to_ascii_lowercase().contains("xn--");
    if plain {
        // by hand: letters, digits and inner hyphens, labels of 1 to 63, at most 253
        let t = s.to_ascii_lowercase();
        let body = t.strip_suffix('.').unwrap_or(&t);
        let ok = !body.is_empty()
            && body.len() <= 253
            && body.split('.').all(|l| {
                (1..=63).contains(&l.len())
                    && l.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-')
                    && !l.starts_with('-')
                    && !l.ends_with('-')
            });
        return if ok { Some(t) } else { None };
    }
    // UTS 46 itself is the external library's business
    idna::Config::default().use_std3_ascii_rules(true).verify_dns_length(true).check_hyphens(true).to_ascii(s).ok()
}

pub fn two_labels(s: &str) -> bool {
    s.trim_end_matches('.').contains('.')
}

#[derive(Clone, Debug, PartialEq)]
pub enum H {
    Ip(IpAddr),
    Name(String),
}

impl H {
    /// as the library's Host prints with {:?}
    pub fn debug(&self) -> String {
        match self {
            H::Ip(IpAddr::V4(a)) => format!("IPv4({a})"),
            H::Ip(IpAddr::V6(a)) => format!("IPv6({a})"),
            H::Name(s) => format!("Domain({s:?})"),
        }
    }
    pub fn local(&self) -> bool {
        match self {
            H::Ip(a) => local_ip(*a),
            H::Name(s) => local_name(s),
        }
    }
    pub fn text(&self) -> String {
        match self {
            H::Ip(a) => bracketed(*a),
            H::Name(s) => s.clone(),
        }
    }
}

pub fn label_errs(t: Tri, h: &H, errs: &mut Vec<&'static str>) {
    match h {
        H::Ip(_) => {
            if t == Tri::Disallow {
                errs.push("AtLeastTwoLabelsDisallow")
            }
        }
        H::Name(s) => {
            if !local_name(s) {
                tri_errs(t, two_labels(s), "AtLeastTwoLabelsMust", "AtLeastTwoLabelsDisallow", errs)
            }
        }
    }
}

pub fn host(s: &str) -> Option<(H, Option<u16>)> {
    if let Some((a, p)) = v6_port(s) {
        return Some((H::Ip(a.into()), p));
    }
    let (name, p) = match s.rsplit_once(':') {
        Some((n, p)) => (n, Some(port(p)?)),
        None => (s, None),
    };
    let n = ascii_name(name)?;
    if n.ends_with('.') {
        return None;
    }
    Some((v4(&n).map(|a| H::Ip(a.into())).unwrap_or(H::Name(n)), p))
}

pub fn judge_host(c: &Cfg, s: &str) -> Exp {
    let Some((h, p)) = host(s) else { return Exp::any_err() };
    let mut errs = vec![];
    tri_errs(c.tri("local"), h.local(), "LocalMust", "LocalDisallow", &mut errs);
    tri_errs(c.tri("port"), p.is_some(), "PortMust", "PortDisallow", &mut errs);
    label_errs(c.tri("at_least_two_labels"), &h, &mut errs);
    if !errs.is_empty() {
        return Exp::Err(errs);
    }
    let mut f: Fields = vec![("host", h.debug()), ("port", port_text(p)), ("auth", auth(h.text(), p))];
    if c.tri("local") == Tri::Allow && c.tri("at_least_two_labels") != Tri::Allow {
        f.push(("is_local", h.local().to_string()));
    }
    Exp::Ok(f)
}

pub fn judge_domain(c: &Cfg, s: &str) -> Exp {
    let (name, p) = match s.rsplit_once(':') {
        Some((n, p)) => match port(p) {
            Some(p) => (n, Some(p)),
            None => return Exp::any_err(),
        },
        None => (s, None),
    };
    let Some(n) = ascii_name(name) else { return Exp::any_err() };
    let bare = n.strip_suffix('.').unwrap_or(&n).to_string();
    let h = v4(&bare).map(|a| H::Ip(a.into())).unwrap_or(H::Name(bare.clone()));
    let is4 = matches!(h, H::Ip(_));
    let mut errs = vec![];
    tri_errs(c.tri("ipv4"), is4, "IPv4Must", "IPv4Disallow", &mut errs);
    tri_errs(c.tri("local"), h.local(), "LocalMust", "LocalDisallow", &mut errs);
    tri_errs(c.tri("port"), p.is_some(), "PortMust", "PortDisallow", &mut errs);
    label_errs(c.tri("at_least_two_labels"), &h, &mut errs);
    if !errs.is_empty() {
        return Exp::Err(errs);
    }
    let mut f: Fields = vec![("domain", n.clone()), ("port", port_text(p)), ("fq", n.ends_with('.').to_string()), ("nfq", bare.clone()), ("auth", auth(bare, p))];
    if c.tri("local") == Tri::Allow && c.tri("at_least_two_labels") != Tri::Allow {
        f.push(("is_local", h.local().to_string()));
        if c.tri("ipv4") == Tri::Allow {
            f.push(("is_ipv4", is4.to_string()));
        }
    }
    Exp::Ok(f)
}

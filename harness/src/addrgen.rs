//! Inputs for everything that has addresses, names and ports.
use crate::models::addr;
use crate::{Rng, genstr};
use std::net::{Ipv4Addr, Ipv6Addr};

pub fn v4(r: &mut Rng) -> Ipv4Addr {
    let b = addr::v4_blocks();
    let x = match r.below(5) {
        0 => r.next() as u32,
        1 => {
            // an edge of a block
            let (base, p) = *r.pick(&b);
            let size = 1u64 << (32 - p);
            let e = if r.bool() { base as u64 } else { base as u64 + size - 1 };
            (e as i64 + r.below(5) as i64 - 2) as u32
        }
        2 | 3 => {
            let (base, p) = *r.pick(&b);
            let m = 1u64.checked_shl(32 - p).unwrap_or(0).wrapping_sub(1) as u32;
            base | (r.next() as u32 & m)
        }
        _ => {
            // a block with one bit of its prefix flipped
            let (base, p) = *r.pick(&b);
            let m = (1u64 << (32 - p)).wrapping_sub(1) as u32;
            (base | (r.next() as u32 & m)) ^ (1 << (31 - r.below(p as usize)))
        }
    };
    Ipv4Addr::from(x)
}

pub fn v6(r: &mut Rng) -> Ipv6Addr {
    let b = addr::v6_blocks();
    let x = match r.below(8) {
        0 => r.u128(),
        1 => {
            let (base, p) = *r.pick(&b);
            let m = if p == 128 { 0 } else { (1u128 << (128 - p)) - 1 };
            let e = if r.bool() { base } else { base | m };
            e.wrapping_add(r.below(5) as u128).wrapping_sub(2)
        }
        2 | 3 => {
            let (base, p) = *r.pick(&b);
            let m = if p == 128 { 0 } else { (1u128 << (128 - p)) - 1 };
            base | (r.u128() & m)
        }
        4 => {
            let (base, p) = *r.pick(&b);
            let m = if p == 128 { 0 } else { (1u128 << (128 - p)) - 1 };
            (base | (r.u128() & m)) ^ (1 << (127 - r.below(p as usize)))
        }
        5 => u32::from(v4(r)) as u128 | if r.bool() { 0xffff << 32 } else { 0 },
        6 => (0xff00 | r.below(256) as u128) << 112 | r.u128() >> 16,
        _ => {
            // many zero groups
            let mut g = [0u16; 8];
            for x in g.iter_mut() {
                if r.chance(1, 3) {
                    *x = r.next() as u16 >> r.below(16);
                }
            }
            return Ipv6Addr::from(g);
        }
    };
    Ipv6Addr::from(x)
}

/// one of the accepted spellings
pub fn spell6(r: &mut Rng, a: Ipv6Addr) -> String {
    let g = a.segments();
    let s = match r.below(5) {
        0 | 1 => a.to_string(),
        2 => g.iter().map(|x| format!("{x:04x}")).collect::<Vec<_>>().join(":"),
        3 => g.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(":"),
        _ => {
            let o = a.octets();
            let head: Vec<String> = g[..6].iter().map(|x| format!("{x:x}")).collect();
            format!("{}:{}.{}.{}.{}", head.join(":"), o[12], o[13], o[14], o[15])
        }
    };
    if r.chance(1, 3) { s.to_uppercase() } else { s }
}

pub fn spell4(r: &mut Rng, a: Ipv4Addr) -> String {
    let o = a.octets();
    match r.below(12) {
        0 => format!("{:03}.{}.{}.{}", o[0], o[1], o[2], o[3]),
        1 => format!("{}.{}.{}", o[0], o[1], o[2]),
        2 => format!("{}.{}.{}.{}.{}", o[0], o[1], o[2], o[3], o[0]),
        3 => format!("{}.{}.{}.{}", o[0] as u32 + 256, o[1], o[2], o[3]),
        4 => format!("{}", u32::from(a)),
        5 => a.to_string() + ".",
        6 => a.to_string().replace('.', "。"),
        7 => wide(&a.to_string()),
        _ => a.to_string(),
    }
}

pub fn wide(s: &str) -> String {
    s.chars().map(|c| if ('!'..='~').contains(&c) && c != '.' { char::from_u32(c as u32 + 0xfee0).unwrap() } else { c }).collect()
}

const PORTS: &[&str] = &[
    "80", "0", "1", "8080", "65535", "65536", "65534", "443", "21", "", "00080", "000000000000065535", "99999", "100000", "+80", "-1", " 80", "80 ", "８０", "0x50", "1e2", "80.", "８", "٣", "4294967376", "18446744073709551696", "80:80", "/", "80/",
];

pub fn port(r: &mut Rng) -> String {
    match r.below(3) {
        0 => r.below(70000).to_string(),
        1 => r.below(65536).to_string(),
        _ => r.pick(PORTS).to_string(),
    }
}

const LABELS: &[&str] = &[
    "localhost", "LOCALHOST", "LocalHost", "localhost1", "localhos", "ｌｏｃａｌｈｏｓｔ", "localhoſt", "local", "example", "com", "EXAMPLE", "中文", "例え", "bücher", "BÜCHER", "faß", "ß", "xn--fiq228c", "xn--bcher-kva", "xn--", "xn--a", "XN--FIQ228C", "xn--zzzzzz",
    "a", "A", "0", "1", "127", "255", "256", "0x7f", "01", "a-b", "a--b", "ab--c", "-a", "a-", "-", "a_b", "_dmarc", "a b", "", "①", "２", "ⅷ", "é", "e\u{301}", "\u{200d}", "a\u{200d}b", "a\u{200c}", "\u{ad}", "a\u{ad}b", "ا", "אב", "1א", "א1", "\u{301}a", "☃", "😀", "日本語", "İ", "ı", "K", "ﬁ", "㍻", "℡", "㏂", "٣", "%20", "a@b", "*", "a/b", "abc123",
];

pub fn label(r: &mut Rng) -> String {
    match r.below(6) {
        0 | 1 => r.pick(LABELS).to_string(),
        2 | 3 => {
            let n = 1 + r.below(12);
            genstr::over_n(r, &['a', 'b', 'z', '0', '9', 'Q', '-'], n)
        }
        4 => {
            let n = *r.pick(&[1usize, 2, 3, 4, 61, 62, 63, 64, 65]);
            "x".repeat(n)
        }
        _ => r.pick(&["example", "foo", "bar", "a", "x1", "org", "tw", "test"]).to_string(),
    }
}

pub fn name(r: &mut Rng) -> String {
    let mut s = match r.below(10) {
        0 => {
            let mut t = r.pick(&["localhost", "LocalHost", "ｌｏｃａｌｈｏｓｔ", "localhoſt", "localhost.localdomain", "a.localhost", "localhost.com", "1ocalhost", "localhost。"]).to_string();
            if r.chance(1, 4) {
                t = genstr::mutate(r, &t, &[".", "l"]);
            }
            t
        }
        1 => {
            let a = v4(r);
            spell4(r, a)
        }
        2 => {
            // around the 253/254/255 limits
            let target = 250 + r.below(8);
            let mut t = String::new();
            while t.len() < target {
                let left = target - t.len();
                let n = left.min(*r.pick(&[63usize, 60, 31]));
                if !t.is_empty() {
                    t.push('.');
                }
                let n = n.min(target - t.len().min(target)).max(1);
                t.push_str(&"y".repeat(n));
            }
            t
        }
        3 => label(r),
        _ => {
            let n = 1 + r.below(4);
            let sep = *r.pick(&[".", ".", ".", ".", ".", ".", "。", "．", "｡", "..", ".."]);
            let v: Vec<String> = (0..n).map(|_| label(r)).collect();
            v.join(sep)
        }
    };
    match r.below(14) {
        0 | 1 => s.push('.'),
        2 => s.push_str(*r.pick(&["。", "．", "..", ". ", "\u{ad}."])),
        3 if r.chance(1, 3) => s.insert(0, '.'),
        _ => {}
    }
    s
}

pub const DICT: &[&str] = &["[", "]", ":", "::", ".", "]:", "[::1]", "127.0.0.1", "localhost", "%", "/", "@", " ", "0", "。", "65536", "80", "+", "-", "IPv6:", "xn--", "\u{ad}", "fe80::1%eth0"];

/// a host, possibly with a port, possibly broken
pub fn authority(r: &mut Rng) -> String {
    let k = r.below(10);
    let h = match k {
        0..=2 => {
            let a = v4(r);
            if r.chance(2, 3) { a.to_string() } else { spell4(r, a) }
        }
        3..=5 => {
            let a = v6(r);
            let s = spell6(r, a);
            match r.below(8) {
                0..=2 => s,
                3..=6 => format!("[{s}]"),
                _ => r.pick(&["[", "]", "[[", "[]", "[ "]).to_string() + &s + r.pick(&["]", "", "]]", "]]]", "]x", " ]"]),
            }
        }
        _ => name(r),
    };
    let mut s = h;
    if r.chance(1, 2) {
        s = format!("{s}:{}", port(r));
    }
    if r.chance(1, 8) {
        s = genstr::mutate(r, &s, DICT);
    }
    s
}

/// hand-picked corners, each run in every configuration
pub const CURATED: &[&str] = &[
    "", "[", "]", "[]", "[]:", "[]:80", "[:80", "[::]", "[::]:0", "::", "::1", "[::1]", "[::1]:80", "[::1]:", "[::1]80", "[::1]:65535", "[::1]:65536", "[::1", "::1]", "[::1]]", "[[::1]]", "[::1]:+80", "[1.2.3.4]", "[1.2.3.4]:80", "[localhost]", "[::ffff:127.0.0.1]:80",
    "[2001:4860:4860::8888]", "2001:4860:4860::8888", "[2001:4860:4860::8888]:443", "2001:db8::", "fe80::1", "fec0::1", "fc00::1", "fdff::", "fe00::1", "ff02::1", "ff0e::1", "ff1e::1", "ff0f::1", "::ffff:8.8.8.8", "::8.8.8.8", "::10.0.0.1", "::ffff:10.0.0.1", "::ffff:0:10.0.0.1", "64:ff9b::10.0.0.1", "fe80::1%1", "1:2:3:4:5:6:7:8:80", "1:2:3:4:5:6:7::80", ":::1", "1::2::3", "12345::", "::g",
    "127.0.0.1", "127.0.0.1.", "127.0.0.1:80", "127.0.0.1.:80", "127.0.0.1:", "127.0.0.1:+1", "127.0.0.1:65536", "127.0.0.1:0", "127.1", "127.0.0.01", "0127.0.0.1", "0x7f.0.0.1", "2130706433", "１２７.0.0.1", "127。0。0。1", "127.0.0.1。", "8.8.8.8", "8.8.8.8.", "8.8.8.8:53", "8.8.8.8.:53", "8.8.8.8:080", "255.255.255.255", "255.255.255.254", "0.0.0.0", "0.0.0.1", "10.255.255.255", "11.0.0.0", "9.255.255.255", "172.15.255.255", "172.16.0.0", "172.31.255.255", "172.32.0.0", "192.167.255.255", "192.168.0.0", "192.169.0.0", "169.253.255.255", "169.254.0.0", "169.255.0.0", "100.64.0.1", "192.0.0.1", "192.0.2.255", "192.0.3.0", "198.51.100.0", "198.18.0.1", "203.0.113.0", "203.0.114.0", "224.0.0.1", "240.0.0.1", "128.0.0.0", "126.255.255.255",
    "localhost", "LOCALHOST", "localhost.", "LocalHost.:80", "localhost:80", "localhost:", "localhost..", ".localhost", "localhost.localdomain", "a.localhost", "ｌｏｃａｌｈｏｓｔ", "localhoſt", "localhoſt.", "localhost。",
    "a", "a.", "a:80", "a.:80", "com", "com.", "example.com", "example.com.", "example.com..", "EXAMPLE.com", "example.com:80", "example.com.:80", "example.com:", "example.com:x", "example.com:+80", "example.com:-0", "example.com:65535", "example.com:65536", "example.com:00000000080", "example.com:80:80", "example.com: 80", "ex ample.com", " example.com", "example.com ", "example..com", "中文.com", "中文", "中文.com:80", "中文.com.", "中文。com", "中文。com。", "xn--fiq228c.com", "xn--fiq228c", "XN--FIQ228C.COM", "xn--.com", "xn--a.com", "faß.de", "a_b.com", "-a.com", "a-.com", "ab--cd.com", "a--b.com", "a\u{200d}b.com", "\u{ad}", "\u{ad}.com", "a\u{ad}.com", "1", "1.", "1.2", "1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.4a", "a.1.2.3", "①.②.③.④", "１.１.１.１", "1.1.1.1\u{ad}", "user@example.com", "example.com/", "http://example.com", "*.example.com", "ex%41mple.com", "example.com#", "example.com?x", "\u{0}", "a\u{0}.com", "。", ".", "..", ":", ":80", "::80", "℡.com", "㏂.com",
    "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx.com", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx.com",
];

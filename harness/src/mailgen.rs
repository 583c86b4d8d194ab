//! Email inputs.
use crate::{Rng, addrgen, genstr};

fn comment(r: &mut Rng, n: usize) -> String {
    let mut s = String::from("(");
    for _ in 0..n {
        s.push(*r.pick(&['a', 'b', ' ', '(', '"', '@', '\\', '中', '.', 'x', 'x', 'x', '[', '\t']));
    }
    s + ")"
}

fn unquoted(r: &mut Rng) -> String {
    let n = 1 + r.below(3);
    let v: Vec<String> = (0..n)
        .map(|_| {
            let k = 1 + r.size(8);
            (0..k)
                .map(|_| match r.below(10) {
                    0 => *r.pick(&"!#$%&'*+-/=?^_`{|}~".chars().collect::<Vec<_>>()),
                    1 if r.chance(1, 3) => *r.pick(&['é', '中', '😀', '\u{80}', '＠', '．']),
                    2 => 'Q',
                    3 => '7',
                    _ => 'a',
                })
                .collect()
        })
        .collect();
    v.join(if r.chance(1, 20) { ".." } else { "." })
}

fn quoted(r: &mut Rng) -> String {
    let n = 1 + r.size(10);
    let mut s = String::from("\"");
    for _ in 0..n {
        match r.below(12) {
            0 => s.push('.'),
            1 => s.push(' '),
            2 => s.push('\t'),
            3 | 4 => {
                s.push('\\');
                s.push(*r.pick(&['"', '\\', '@', '(', ')', '[', ']', ',', ':', ';', '<', '>', 'a', '.', ' ', 'é']));
            }
            5 if r.chance(1, 4) => s.push(*r.pick(&['"', '\\', '@', '(', ')', '[', ']', ',', ':', ';', '<', '>', '\n', '\0', '\u{7f}'])),
            6 if r.chance(1, 3) => s.push(*r.pick(&['é', '中', '😀'])),
            7 => s.push_str(".."),
            _ => s.push(*r.pick(&['a', 'b', 'Z', '9', '!', '~', '-'])),
        }
    }
    s + "\""
}

fn host(r: &mut Rng) -> String {
    match r.below(8) {
        0 | 1 => format!("[{}]", addrgen::v4(r)),
        2 | 3 => {
            let a = addrgen::v6(r);
            format!("[IPv6:{}]", addrgen::spell6(r, a))
        }
        4 => {
            let a = addrgen::v6(r);
            let b = addrgen::v4(r);
            match r.below(8) {
                0 => format!("[{a}]"),
                1 => format!("[ipv6:{a}]"),
                2 => format!("[IPv6:{b}]"),
                3 => format!("[IPv6: {a}]"),
                4 => format!("[{b}"),
                5 => format!("{b}"),
                6 => format!("IPv6:{a}"),
                _ => format!("[{b}.]"),
            }
        }
        5 => r.pick(&["localhost", "LOCALHOST", "example.com", "com", "中文.com", "a.b.c", "ｌocalhost"]).to_string(),
        _ => addrgen::name(r),
    }
}

/// something ASCII or not of exactly n bytes
fn pad(r: &mut Rng, n: usize) -> String {
    if r.chance(1, 3) {
        let mut s = "中".repeat(n / 3);
        while s.len() < n {
            s.push('p');
        }
        s
    } else {
        "p".repeat(n)
    }
}

pub fn email(r: &mut Rng) -> String {
    let p = *r.pick(&[0usize, 0, 2, 5]);
    let mut c: Vec<String> = (0..4)
        .map(|_| {
            if r.below(10) < p {
                let n = r.below(4);
                comment(r, n)
            } else {
                String::new()
            }
        })
        .collect();
    let mut local = if r.bool() { unquoted(r) } else { quoted(r) };
    let mut h = host(r);
    match r.below(8) {
        0 => {
            // the part before @ around 64 bytes
            let target = 61 + r.below(8);
            let now = c[0].len() + local.len() + c[1].len();
            if now < target {
                let x = pad(r, target - now);
                match r.below(3) {
                    0 if !c[0].is_empty() => c[0].insert_str(1, &x),
                    1 if !c[1].is_empty() => c[1].insert_str(1, &x),
                    _ => {
                        let at = usize::from(local.starts_with('"'));
                        local.insert_str(at, &x);
                    }
                }
            }
        }
        1 => {
            // the part after @ around 255 bytes
            let target = 251 + r.below(8);
            let now = c[2].len() + h.len() + c[3].len();
            if now < target {
                let n = target - now;
                match r.below(4) {
                    0 | 1 => {
                        let k = *r.pick(&[2usize, 3]);
                        if c[k].is_empty() && n >= 2 {
                            c[k] = format!("({})", pad(r, n - 2));
                        } else if !c[k].is_empty() {
                            let x = pad(r, n);
                            c[k].insert_str(1, &x);
                        }
                    }
                    2 => {
                        // labels
                        let mut t = String::new();
                        let mut left = n;
                        while left > 1 {
                            let k = (left - 1).min(1 + r.below(63));
                            t.push_str(&"d".repeat(k));
                            t.push('.');
                            left -= k + 1;
                        }
                        if !h.starts_with('[') {
                            h.insert_str(0, &t);
                        }
                    }
                    _ => {
                        // grows when mapped
                        let x = r.pick(&["中", "é", "中文", "℡"]).to_string();
                        h = format!("{}.com", vec![x; 1 + r.below(30)].join("."));
                        let now = c[2].len() + h.len() + c[3].len();
                        if now + 2 < target {
                            c[3] = format!("({})", "q".repeat((target - now).saturating_sub(2 + r.below(40))));
                        }
                    }
                }
            }
        }
        _ => {}
    }
    let mut s = format!("{}{}{}@{}{}{}", c[0], local, c[1], c[2], h, c[3]);
    if r.chance(1, 5) {
        s = genstr::mutate(r, &s, DICT);
    }
    s
}

pub const DICT: &[&str] = &["@", "(", ")", "()", "(a)", "\"", "\\", "\\\"", ".", "..", "[", "]", "[IPv6:", "[127.0.0.1]", "localhost", " ", "\t", ",", "<", "é", "中", "\0", "\n", "a"];

pub const CURATED: &[&str] = &[
    "", "@", "a", "a@", "@a", "a@b", "a@b.c", "a@@b", "a@b@c", "\"", "\"\"", "\"\"@a", "\"a\"@b", "\"a\"b@c", "\"a@b", "\"a\"", "\"a\\\"@b", "\"a\\\"\"@b", "\"\\\\\"@b", "\"\\\"@b", "\"\\a\"@b", "\"\\ \"@b", "\" \"@b", "\"\t\"@b", "\".\"@b", "\"..\"@b", "\"a.\"@b", "\".a\"@b", "\"a..b\"@b", "\"a.b\"@b", "\"a@b\"@c", "\"a\\@b\"@c", "\"a(b\"@c", "\"a\\(b\"@c", "\"\\ @\"@c", "\"\\\t@\"@c",
    ".a@b", "a.@b", "a..b@b", "a.b@b", "a b@c", "a\\b@c", "a,b@c", "a<b@c", "a:b@c", "a[b@c", "é@b", "\"é\"@b", "a\u{1}@b", "a\u{7f}@b",
    "(", "()", "(a)", "(a)@b", "()a@b", "(c)a@b", "(c)\"a\"@b", "(c)(d)a@b", "a(c)@b", "a()@b", "a(c)(d)@b", "a(c@b", "a(c)d@b", "\"a\"(c)@b", "a@(c)b", "a@()b", "a@(c)", "a@(c)(d)b", "a@(cb", "a@b(c)", "a@b()", "a@b(c", "a@b(c)d", "a@b(c)(d)", "a@b(c) ", "(1)a(2)@(3)b(4)", "(1)\"a b\"(2)@(3)[127.0.0.1](4)", "(中)a(é)@(中)b(😀)", "((a)b@c", "(a))b@c", "(a\")b@c",
    "a@localhost", "a@LOCALHOST", "a@localhost.", "a@localhost(c)", "a@(c)localhost", "a@b.c.", "a@b.c。", "a@b..c", "a@.b", "a@中文.com", "a@xn--fiq228c.com", "a@b_c", "a@-b", "a@b-", "a@ｌocalhost", "a@b c", "a@ b", "a@b\t",
    "a@[127.0.0.1]", "a@[8.8.8.8]", "a@[8.8.8.8](c)", "a@(c)[8.8.8.8]", "a@[8.8.8.8]x", "a@[8.8.8.8", "a@[", "a@[]", "a@[]]", "a@[8.8.8]", "a@[ 8.8.8.8]", "a@8.8.8.8", "a@127.0.0.1", "a@[IPv6:::1]", "a@[IPv6:2001:4860:4860::8888]", "a@[IPv6:]", "a@[IPv6:", "a@[IPv6", "a@[ipv6:::1]", "a@[IPV6:::1]", "a@[::1]", "a@[IPv6:8.8.8.8]", "a@[IPv6:::ffff:8.8.8.8]", "a@[IPv6:::ffff:10.0.0.1]", "a@[IPv6:fe80::1%1]", "a@[IPv6:0:0:0:0:0:0:0:1]", "a@[localhost]", "a@[8.8.8.8].com",
    "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa@b", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa@b",
];

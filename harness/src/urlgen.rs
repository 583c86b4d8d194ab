//! URL texts.
use crate::{Rng, addrgen, genstr};

pub const SCHEMES: &[&str] = &["http", "https", "ftp", "HTTP", "Https", "hTTpS", "FTP", "Ftp", "file", "ws", "wss", "ftps", "sftp", "mailto", "data", "javascript", "about", "urn", "x", "htt", "httpss", "httpx", "ht\ttp", "h\nttps", " http", "\u{1}http", "\thttp", "\u{feff}http", "http ", "http\t", "ｈｔｔｐ", "httpſ", "https\u{200b}", "", "1http", "http+x", "blob:http", "view-source:http"];
const AFTER: &[&str] = &["://", "://", "://", "://", "://", ":/", ":", ":///", ":////", ":\\\\", ":/\\", ":/ /", "//", "", ":\t//", "\t://", ": //", "%3A//"];
const HOSTS: &[&str] = &["localhost", "LOCALHOST", "localhost.", "example.com", "EXAMPLE.COM.", "127.0.0.1", "127.1", "0x7f.1", "2130706433", "017700000001", "8.8.8.8", "8.8.8.8.", "0", "10", "1.2.3.4.5", "256.1.1.1", "[::1]", "[::ffff:127.0.0.1]", "[2001:4860::8888]", "[::1", "[]", "[::1%25eth0]", "中文.com", "xn--", "a b", "a%20b", "%6cocalhost", "loc%61lhost", "ｌｏｃａｌｈｏｓｔ", "localhoſt", "loc\u{ad}alhost", "", ".", "..", "a..b", "a_b", "-a-", "\u{ad}", "①②⑦.0.0.1", "１２７。１", "[fec0::1]", "[fe80::1]", "[fc00::1]", "[ff02::1]", "192.168.0.1", "169.254.1.1", "255.255.255.255", "0.0.0.0", "203.0.113.9", "a|b", "a^b", "a<b", "*"];
const USER: &[&str] = &["", "", "", "", "", "u@", "u:p@", ":@", "@", "u:p:q@", "a@b@", "u%40@", "localhost@", "http://@", "[@", "é:☃@"];
const TAIL: &[&str] = &["", "", "/", "/a/b/../c", "/%2e%2e/x", "?q", "?", "#", "#f", "/x?y#z", "\\a\\b", "/ ", "/\t\n", "/é☃", "/%zz", "/a:b@c", "/http://localhost/", "?u=ftp://127.0.0.1", "\u{0}", "/.", "/..//", "/%00", "/\u{ffff}", "/😀"];
pub const DICT: &[&str] = &["http:", "https:", "ftp:", "//", "/", ":", "@", "localhost", "127.0.0.1", "[", "]", "[::1]", "\t", "\n", "\r", " ", "%", "\\", "#", "?", ".", "。", "\u{ad}", "80", "HTTP"];

pub fn url(r: &mut Rng) -> String {
    let scheme = if r.chance(3, 4) { genstr_case(r) } else { r.pick(SCHEMES).to_string() };
    let after = if r.chance(4, 5) { "://" } else { r.pick(AFTER) };
    let host = match r.below(8) {
        0..=2 => r.pick(HOSTS).to_string(),
        3 => addrgen::v4(r).to_string(),
        4 => {
            let a = addrgen::v6(r);
            format!("[{}]", addrgen::spell6(r, a))
        }
        5 => {
            let a = addrgen::v4(r);
            addrgen::spell4(r, a)
        }
        _ => addrgen::name(r),
    };
    let port = if r.chance(1, 3) { format!(":{}", addrgen::port(r)) } else { String::new() };
    let user = if r.chance(1, 4) { *r.pick(USER) } else { "" };
    let mut s = format!("{scheme}{after}{user}{host}{port}{}", r.pick(TAIL));
    match r.below(12) {
        0 | 1 => s = genstr::mutate(r, &s, DICT),
        2 => s = r.pick(&[" ", "\t", "\n", "\u{1}", "\u{feff}", "\u{a0}"]).to_string() + &s,
        3 => s.push_str(*r.pick(&[" ", "\t", "\n", "\u{1}", "\u{a0}"])),
        _ => {}
    }
    s
}

fn genstr_case(r: &mut Rng) -> String {
    let s = *r.pick(&["http", "https", "ftp", "http", "https"]);
    genstr::recase(r, s)
}

//! C30: an error keeps the promise its documentation makes, carries the underlying error unchanged, and its message gets through.
use std::net::IpAddr;
use std::sync::LazyLock;
use validators::errors::*;
use vf::offer;
use vf::*;
use vh::data::*;
use vh::models::addr::{self, H};
use vh::models::{hexid, urlm};

#[path = "../../../harness/src/gen/basen.rs"]
mod g01;
#[path = "../../../harness/src/gen/basen_decoded.rs"]
mod g02;
#[path = "../../../harness/src/gen/domain.rs"]
mod g15;
#[path = "../../../harness/src/gen/email.rs"]
mod g16;
#[path = "../../../harness/src/gen/host.rs"]
mod g04;
#[path = "../../../harness/src/gen/http_ftp_url.rs"]
mod g05;
#[path = "../../../harness/src/gen/http_url.rs"]
mod g06;
#[path = "../../../harness/src/gen/ip.rs"]
mod g07;
#[path = "../../../harness/src/gen/ipv4.rs"]
mod g08;
#[path = "../../../harness/src/gen/ipv6.rs"]
mod g09;
#[path = "../../../harness/src/gen/mac_address.rs"]
mod g11;
#[path = "../../../harness/src/gen/uuid.rs"]
mod g14;

static MORE: LazyLock<&'static [Cfg]> = LazyLock::new(|| join(&[g01::CFGS, g02::CFGS, g04::CFGS, g05::CFGS, g06::CFGS, g07::CFGS, g08::CFGS, g09::CFGS, g11::CFGS, g14::CFGS, g15::CFGS, g16::CFGS]));

/// every kind of error that carries nothing, with its message
macro_rules! words {
    ($($e:ident: $($n:ident)*;)*) => { &[$((stringify!($e), &[$((stringify!($n), || $e::$n.to_string())),*])),*] };
}
type Word = (&'static str, fn() -> String);
const WORDS: &[(&str, &[Word])] = words! {
    Base32Error: Invalid PaddingMust PaddingDisallow;
    Base32DecodedError: Invalid PaddingMust PaddingDisallow Decode;
    Base64Error: Invalid PaddingMust PaddingDisallow;
    Base64DecodedError: Invalid PaddingMust PaddingDisallow Decode;
    Base64UrlError: Invalid PaddingMust PaddingDisallow;
    Base64UrlDecodedError: Invalid PaddingMust PaddingDisallow Decode;
    BitError: TooLarge TooSmall;
    ByteError: TooLarge TooSmall;
    DomainError: Invalid IPv4Must IPv4Disallow LocalMust LocalDisallow AtLeastTwoLabelsMust AtLeastTwoLabelsDisallow PortMust PortDisallow;
    EmailError: Invalid IPMust IPDisallow LocalMust LocalDisallow AtLeastTwoLabelsMust AtLeastTwoLabelsDisallow CommentDisallow;
    HostError: Invalid LocalMust LocalDisallow AtLeastTwoLabelsMust AtLeastTwoLabelsDisallow PortMust PortDisallow;
    HttpURLError: ProtocolError LocalMust LocalDisallow;
    HttpFtpURLError: ProtocolError LocalMust LocalDisallow;
    IpError: Invalid LocalMust LocalDisallow PortMust PortDisallow;
    Ipv4Error: Invalid LocalMust LocalDisallow PortMust PortDisallow;
    Ipv6Error: Invalid LocalMust LocalDisallow PortMust PortDisallow;
    LengthError: TooLarge TooSmall;
    LineError: Invalid TooLong TooShort;
    TextError: Invalid TooLong TooShort;
    MacAddressError: Invalid SeparatorMust SeparatorDisallow;
    UuidError: Invalid SeparatorMust SeparatorDisallow;
    NumberError: TooLarge TooSmall Forbidden NaNMust NaNDisallow;
    SignedIntegerError: TooLarge TooSmall Forbidden;
    UnsignedIntegerError: TooLarge TooSmall Forbidden;
    JsonError: InvalidJsonValueError;
    PhoneError: Invalid;
};

/// errors go up through `?` into `Box<dyn Error + Send + Sync>` and the like; `Result` must not be in the way
const _: () = {
    const fn sendable<E: std::error::Error + Send + Sync + Unpin + 'static>() {}
    const fn wrapper<E: Send + Sync + Unpin + 'static>() {}
    macro_rules! all {
        ($($e:ident)*) => { $(sendable::<$e>(); wrapper::<validators::Result<String, $e>>();)* };
    }
    all!(Base32Error Base32DecodedError Base64Error Base64DecodedError Base64UrlError Base64UrlDecodedError BitError BooleanError ByteError DomainError EmailError HostError HttpURLError HttpFtpURLError IpError Ipv4Error Ipv6Error JsonError LengthError LineError MacAddressError NumberError PhoneError RegexError SemverError SignedIntegerError TextError UrlError UnsignedIntegerError UuidError);
};

fn words() -> usize {
    FEW.len() + MORE.len()
}

/// the message of a kind of error says which way it is meant
fn polarity(n: &str, m: &str) -> Result<(), String> {
    let has = |w: &[&str]| w.iter().any(|w| m.contains(w));
    let no = has(&["must not", "not allowed", "only one"]);
    let ok = match n {
        "TooLarge" => has(&["large"]) && !has(&["small"]),
        "TooSmall" => has(&["small"]) && !has(&["large"]),
        "TooLong" => has(&["long"]) && !has(&["short"]),
        "TooShort" => has(&["short"]) && !has(&["long"]),
        "Forbidden" => has(&["forbidden"]),
        _ if n.ends_with("Disallow") => no,
        _ if n.ends_with("Must") => !no,
        _ => true,
    };
    if ok { Ok(()) } else { Err(format!("the message of {n} is {m:?}")) }
}

/// where the host part may stand in a text that need not be valid
fn candidates(v: &str, s: &str) -> Vec<H> {
    let mut parts: Vec<&str> = vec![s];
    if v == "email" {
        parts.extend(s.match_indices('@').map(|(i, _)| &s[i + 1..]));
        for (t, dir) in [('(', 0), (')', 1)] {
            let l: Vec<&str> = parts.iter().flat_map(|p| p.match_indices(t).map(move |(i, _)| if dir == 0 { &p[..i] } else { &p[i + 1..] })).collect();
            parts.extend(l);
        }
        let l: Vec<&str> = parts.iter().filter_map(|p| p.strip_prefix("[IPv6:").or(p.strip_prefix('['))?.split(']').next()).collect();
        parts.extend(l);
    }
    if let Some((h, _)) = s.rsplit_once(':') {
        parts.push(h);
    }
    let l: Vec<&str> = parts.iter().filter_map(|p| p.strip_prefix('[')?.split(']').next()).collect();
    parts.extend(l);
    let mut out = vec![];
    for p in parts {
        if let Some(a) = addr::v6(p) {
            out.push(H::Ip(IpAddr::V6(a)));
        } else if let Some(n) = addr::ascii_name(p) {
            let b = n.strip_suffix('.').unwrap_or(&n);
            if v == "email" {
                // without brackets it is a name there
                out.push(H::Name(b.to_string()));
            }
            out.push(addr::v4(b).map(|a| H::Ip(a.into())).unwrap_or(H::Name(b.to_string())));
        }
    }
    out
}

/// what the documentation of an error guarantees about the input, valid or not
fn promise(c: &Cfg, i: &Input, name: &str) -> Result<(), String> {
    let b: &[u8] = match i {
        Input::Str(s) => s.as_bytes(),
        Input::Bytes(b) => b,
        _ => return Ok(()),
    };
    let lossy = String::from_utf8_lossy(b);
    let s: &str = &lossy;
    let fail = |m: &str| Err(format!("rejected with {name}, but {m}"));
    let url = c.v.ends_with("url");
    match name {
        "PaddingMust" if b.ends_with(b"=") && b.len() % if c.v.contains("32") { 8 } else { 4 } == 0 => return fail("the text is padded"),
        "PaddingDisallow" if !b.contains(&b'=') => return fail("there is no padding"),
        "SeparatorMust" => {
            let sep = hexid::sep(c).unwrap();
            let mut at = 0;
            let g = hexid::groups(c.v);
            let all = b.len() == g.iter().sum::<usize>() + g.len() - 1
                && g[..g.len() - 1].iter().all(|n| {
                    at += n + 1;
                    b[at - 1] == sep
                });
            if all {
                return fail("all the separators are there");
            }
        }
        // it only "seems": the length is not that of a text without
        "SeparatorDisallow" if b.len() == hexid::groups(c.v).iter().sum::<usize>() => return fail("there is no room for a separator"),
        "PortMust" => {
            if let Some((h, p)) = s.rsplit_once(':') {
                let plain = c.v != "ipv6" && !h.contains(':');
                if addr::port(p).is_some() && (plain || h.starts_with('[') && h.ends_with(']')) {
                    return fail("a port is there");
                }
            }
        }
        "PortDisallow" if !s.contains([':', '[']) => return fail("there is no port"),
        "IPMust" => {
            if let Some((_, d)) = s.split_once('@') {
                let t = d.strip_prefix('[').and_then(|d| d.strip_suffix(']')).unwrap_or("");
                if s.matches('@').count() == 1 && (addr::v4(t).is_some() || t.strip_prefix("IPv6:").and_then(addr::v6).is_some()) {
                    return fail("the domain part is an IP");
                }
            }
        }
        "IPDisallow" if !s.contains('[') && !candidates(c.v, s).iter().any(|h| matches!(h, H::Ip(_))) => return fail("nothing in it looks like an IP"),
        "IPv4Must" if !candidates(c.v, s).iter().any(|h| matches!(h, H::Name(_))) => return fail("the domain part is an IPv4"),
        "IPv4Disallow" if !candidates(c.v, s).iter().any(|h| matches!(h, H::Ip(IpAddr::V4(_)))) => return fail("the domain part is not an IPv4"),
        "LocalMust" | "LocalDisallow" if url => {
            let want = name == "LocalDisallow";
            if url::Url::parse(s).ok().and_then(|u| urlm::local(&u)) != Some(want) {
                return fail("the host is not so");
            }
        }
        "LocalMust" if !candidates(c.v, s).iter().any(|h| !h.local()) => return fail("it is local"),
        "LocalDisallow" if !candidates(c.v, s).iter().any(|h| h.local()) => return fail("it is not local"),
        "AtLeastTwoLabelsMust" if !candidates(c.v, s).iter().any(|h| matches!(h, H::Name(n) if !addr::two_labels(n))) => return fail("it has more than one label"),
        "AtLeastTwoLabelsDisallow" if !s.contains(['.', '。', '．', '｡', '[', ':']) => return fail("it has one label only"),
        "ProtocolError" if urlm::scheme(c, s).is_some() => return fail("the scheme is a permitted one"),
        _ => {}
    }
    Ok(())
}

/// the message of the library that does the underlying work, when the error carries it
fn underlying(w: &Few, d: &D, variant: &str) -> Option<Vec<String>> {
    fn m<T, E: std::fmt::Display>(r: Result<T, E>) -> Vec<String> {
        r.err().map(|e| e.to_string()).into_iter().collect()
    }
    let id = w.name.split(' ').next().unwrap();
    let s = match d {
        D::Str(s) => s,
        _ if w.v == "json" => return None,
        _ => return None,
    };
    Some(match (w.v, variant) {
        ("url", "UrlError") | ("http_url" | "http_ftp_url", "ParseError") => m(url::Url::parse(s)),
        ("semver", _) => m(semver::Version::parse(s)),
        ("semver_req", _) => m(semver::VersionReq::parse(s)),
        ("bit", "ParseError") => m(byte_unit::Bit::parse_str(s)),
        ("byte", "ParseError") => m(byte_unit::Byte::parse_str(s, id != "Byte2")),
        ("number", "ParseFloatError") => m(s.parse::<f64>()),
        (_, "ParseIntError") => match id {
            "I8" => m(s.parse::<i8>()),
            "I16" => m(s.parse::<i16>()),
            "I32" => m(s.parse::<i32>()),
            "I64" => m(s.parse::<i64>()),
            "I128" => m(s.parse::<i128>()),
            "Isz" => m(s.parse::<isize>()),
            "U8" => m(s.parse::<u8>()),
            "U16" => m(s.parse::<u16>()),
            "U32" => m(s.parse::<u32>()),
            "U64" => m(s.parse::<u64>()),
            "U128" => m(s.parse::<u128>()),
            "Usz" => m(s.parse::<usize>()),
            _ => panic!("HARNESS: {id}"),
        },
        ("phone", v) => {
            use phonenumber::country::Id::*;
            let l: &[Option<phonenumber::country::Id>] = match id {
                "Phone1" => &[None],
                "Phone2" => &[Some(TW)],
                _ => &[Some(TW), Some(US), Some(JP)],
            };
            let l: Vec<_> = l.iter().map(|c| phonenumber::parse(*c, s)).collect();
            if v == "Invalid" {
                // documented: parsed successfully, but not valid
                return if l.iter().any(|r| r.is_ok()) { None } else { Some(vec![]) };
            }
            // of any of the countries
            l.into_iter().flat_map(m).collect()
        }
        _ => return None,
    })
}

fn port(r: &mut Rng, s: String) -> String {
    let p = *r.pick(&["", "0", "80", "65535", "65536", "99999", "080", "+80", "-1", "8a", " 80", "00000080", "٨"]);
    match r.below(4) {
        0 => format!("{s}:{p}"),
        1 => format!("[{s}]:{p}"),
        2 => format!("{s}:{p}:80"),
        _ => match s.rsplit_once(':') {
            Some((h, _)) => format!("{h}:{p}"),
            None => format!("{s}:{p}"),
        },
    }
}

struct C30;

impl Property for C30 {
    fn long(&self) -> (u64, u64) {
        (512, 8192)
    }
    fn scale(&self) -> usize {
        4
    }
    fn id(&self) -> &'static str {
        "C30"
    }
    fn rule(&self) -> String {
        "valid texts for about 800 option combinations broken in one place or several (ports out of range or malformed, brackets, separators, padding, characters exchanged, pieces of other texts), and data of every kind offered to validators of every kind; for every error returned: what its documentation guarantees is checked on the input, a carried error is compared with that of the library that does the work, and the message must come through deserialisation (readable, unreadable, JSON text); and all pairs of kinds of errors. Non-trivial: an error was returned".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["url, semver, byte-unit, phonenumber and the standard library are the reference for their own errors".into()]
    }
    fn cfg_names(&self) -> Vec<String> {
        FEW.iter().map(|w| w.name.to_string()).chain(MORE.iter().map(|c| c.name.to_string())).chain(["kinds of errors".to_string()]).collect()
    }
    fn generate(&self, plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
        if plan.shard == 0 {
            for e in 0..WORDS.len() {
                for v in 0..WORDS[e].1.len() {
                    if !emit(words(), Input::Bytes(vec![e as u8, v as u8])) {
                        return;
                    }
                }
            }
        }
        for _ in 0..plan.n(2_000_000, 120_000_000) {
            let go = if r.chance(1, 3) {
                let i = r.below(FEW.len());
                if FEW[i].v == "phone" && !r.chance(1, 4) {
                    continue;
                }
                let mut d = offer::data(r, &FEW[i]);
                if let (D::Str(s), true) = (&d, r.chance(1, 3)) {
                    d = D::Str(genstr::mutate(r, s, &["-", ".", ":", "0", "a", "[", "]", "@", " ", "é", "\u{1}"]));
                }
                emit(i, d.to_input())
            } else {
                let k = r.below(MORE.len());
                let c = &MORE[k];
                let x = vf::byattr::input(r, c);
                let x = match x {
                    Input::Str(mut s) => {
                        if matches!(c.v, "ip" | "ipv4" | "ipv6" | "host" | "domain") && r.chance(1, 3) {
                            s = port(r, s);
                        }
                        if r.chance(1, 3) {
                            s = genstr::mutate(r, &s, &["-", ".", ":", "0", "1.2.3.4", "::1", "localhost", "a", "[", "]", "@", "(", ")", "\"", "=", "==", "G", " ", "é", "。", "xn--", "http:", "https://", "ftp:", "\u{1}"]);
                        }
                        Input::Str(s)
                    }
                    x => x,
                };
                emit(words().min(FEW.len() + k), x)
            };
            if !go {
                return;
            }
        }
    }
    fn check(&self, cfg: usize, i: &Input, note: &mut Note) -> Result<(), String> {
        if cfg == words() {
            let Input::Bytes(b) = i else { return Ok(()) };
            let (e, l) = WORDS[b[0] as usize];
            let (n, f) = l[b[1] as usize];
            let m = f();
            note.nontrivial = true;
            note.class = "kind of error";
            if m.trim().is_empty() {
                return Err(format!("{e}::{n} has no message"));
            }
            polarity(n, &m).map_err(|m| format!("{e}: {m}"))?;
            for (o, g) in l.iter().filter(|o| o.0 != n) {
                if g() == m {
                    return Err(format!("{e}::{n} and {e}::{o} have the same message {m:?}"));
                }
            }
            if n.ends_with("Must") || n.ends_with("Disallow") {
                for (x, k) in WORDS {
                    for (o, g) in k.iter().filter(|o| o.0 == n) {
                        if g() != m {
                            return Err(format!("{e}::{n} says {m:?}, {x}::{o} says {:?}", g()));
                        }
                    }
                }
            }
            return Ok(());
        }
        if cfg >= FEW.len() {
            let c = &MORE[cfg - FEW.len()];
            let o = c.exec(i);
            note.class = if o.is_ok() { "accept" } else { "promise" };
            if let Some(n) = o.err_name() {
                note.nontrivial = n != "Invalid";
                return promise(c, i, n);
            }
            return match o {
                Out::Broken(m) | Out::Panic(m) => Err(m),
                _ => Ok(()),
            };
        }
        let Some(d) = D::from_input(i) else { return Ok(()) };
        let w = &FEW[cfg];
        note.class = "accept";
        for human in [true, false] {
            let Some((debug, message)) = (w.fault)(&d, human) else { continue };
            note.class = "message";
            note.nontrivial = true;
            if message.trim().is_empty() {
                return Err(format!("{debug} has no message"));
            }
            let variant = Out::Err(debug.clone()).err_name().unwrap().to_string();
            match underlying(w, &d, &variant) {
                Some(m) if !m.is_empty() && !m.contains(&message) => return Err(format!("{debug} says {message:?}, the underlying error is {m:?}")),
                Some(m) if m.is_empty() => return Err(format!("{debug}, but the underlying library has another opinion")),
                _ => {}
            }
            for own in [Own::Borrowed, Own::Transient, Own::Owned] {
                match (w.de)(De { d: &d, human, own }) {
                    Err(e) if e.contains(&message) => {}
                    x => return Err(format!("human readable {human}, {own:?}: direct validation says {message:?}, deserialising gives {x:?}")),
                }
            }
            if let (true, Some(j)) = (human, d.json()) {
                let t = j.to_string();
                if serde_json::from_str::<validators::serde_json::Value>(&t).ok() == Some(j.clone()) && offer::from_json(&j) == d {
                    match (w.json)(&t) {
                        Err(e) if e.contains(&message) => {}
                        x => return Err(format!("JSON {t}: direct validation says {message:?}, deserialising gives {x:?}")),
                    }
                }
            }
        }
        Ok(())
    }
}

fn main() {
    vh::main(&C30)
}

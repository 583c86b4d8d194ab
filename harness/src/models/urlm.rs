//! URLs: the scheme is read off the text, the rest is the url crate's reading.
use super::{Exp, addr};
use crate::{Cfg, Tri};

pub fn scheme(c: &Cfg, s: &str) -> Option<&'static str> {
    let all: &[&'static str] = match c.v {
        "http_url" => &["http", "https"],
        _ => &["http", "https", "ftp"],
    };
    let (head, _) = s.split_once(':')?;
    all.iter().copied().find(|n| head.eq_ignore_ascii_case(n))
}

pub fn local(u: &url::Url) -> Option<bool> {
    match u.host()? {
        url::Host::Domain(d) => Some(addr::local_name(d)),
        url::Host::Ipv4(a) => Some(addr::local4(a)),
        url::Host::Ipv6(a) => Some(addr::local6(a)),
    }
}

pub fn text(u: &url::Url) -> String {
    format!("{u} {:?}", u.host())
}

pub fn judge(c: &Cfg, s: &str) -> Exp {
    let parsed = url::Url::parse(s);
    if c.v == "url" {
        return match parsed {
            Ok(u) => Exp::Ok(vec![("url", text(&u))]),
            Err(_) => Exp::any_err(),
        };
    }
    let sch = scheme(c, s);
    let Ok(u) = parsed else { return Exp::any_err() };
    let Some(sch) = sch else {
        // nothing else can be wrong with it unless the host is
        let other = match (local(&u), c.tri("local")) {
            (Some(true), Tri::Must) | (Some(false), Tri::Disallow) | (_, Tri::Allow) => false,
            _ => true,
        };
        return if other { Exp::any_err() } else { Exp::err("ProtocolError") };
    };
    let is_local = local(&u).expect("HARNESS: special URLs have hosts");
    match (c.tri("local"), is_local) {
        (Tri::Must, false) => return Exp::err("LocalMust"),
        (Tri::Disallow, true) => return Exp::err("LocalDisallow"),
        _ => {}
    }
    let mut f = vec![("url", text(&u))];
    if c.v == "http_url" {
        f.push(("is_https", (sch == "https").to_string()));
    } else {
        f.push(("protocol", sch.to_uppercase()));
    }
    Exp::Ok(f)
}

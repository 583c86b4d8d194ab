//! Emails: an independent reading of the documented grammar.
use super::Exp;
use super::addr::{self, H};
use crate::{Cfg, Fields, Tri};
use std::net::IpAddr;

#[derive(Clone, Debug, PartialEq)]
pub struct Mail {
    pub c: [Option<String>; 4],
    pub local: String,
    pub need_quoted: bool,
    pub non_ascii: bool,
    pub host: H,
}

fn atext(c: char) -> bool {
    c.is_ascii_alphanumeric() || "!#$%&'*+-/=?^_`{|}~".contains(c) || !c.is_ascii()
}

fn special(c: char) -> bool {
    "(),:;<>@[]\"".contains(c)
}

/// `(text)` at the front
fn comment<'a>(s: &mut &'a str) -> Option<Option<String>> {
    let Some(rest) = s.strip_prefix('(') else { return Some(None) };
    let i = rest.find(')')?;
    *s = &rest[i + 1..];
    Some(Some(rest[..i].to_string()))
}

fn quoted<'a>(s: &mut &'a str) -> Option<String> {
    let rest = &s[1..];
    let mut esc = false;
    for (i, c) in rest.char_indices() {
        if c == '"' && !esc {
            *s = &rest[i + 1..];
            return if i == 0 { None } else { Some(rest[..i].to_string()) };
        }
        if c == '\\' {
            esc = !esc;
            continue;
        }
        if special(c) {
            if !esc {
                return None;
            }
        } else if !(atext(c) || c == '.' || c == ' ' || c == '\t') {
            return None;
        }
        esc = false;
    }
    None
}

fn unquoted<'a>(s: &mut &'a str) -> Option<String> {
    let i = s.find(|c| c == '@' || c == '(')?;
    let t = &s[..i];
    *s = &s[i..];
    if t.split('.').all(|a| !a.is_empty() && a.chars().all(atext)) { Some(t.to_string()) } else { None }
}

pub fn parse(whole: &str) -> Option<Mail> {
    if whole.is_empty() || whole.len() > 320 {
        return None;
    }
    let mut s = whole;
    let c1 = comment(&mut s)?;
    let q = s.starts_with('"');
    let local = if q { quoted(&mut s)? } else { unquoted(&mut s)? };
    let c2 = comment(&mut s)?;
    if whole.len() - s.len() > 64 {
        return None;
    }
    s = s.strip_prefix('@')?;
    let total = s.len();
    let c3 = comment(&mut s)?;
    let (host, written, canonical) = if let Some(rest) = s.strip_prefix('[') {
        let i = rest.find(']')?;
        s = &rest[i + 1..];
        let t = &rest[..i];
        match t.strip_prefix("IPv6:") {
            Some(a) => {
                let ip = addr::v6(a)?;
                (H::Ip(IpAddr::V6(ip)), a.len(), ip.to_string().len())
            }
            None => (H::Ip(IpAddr::V4(addr::v4(t)?)), 0, 0),
        }
    } else {
        let i = s.find('(').unwrap_or(s.len());
        let t = &s[..i];
        s = &s[i..];
        let n = addr::ascii_name(t)?;
        if n.ends_with('.') {
            return None;
        }
        let l = n.len();
        (H::Name(n), t.len(), l)
    };
    if total > 255 || total - written + canonical > 255 {
        return None;
    }
    let c4 = comment(&mut s)?;
    if !s.is_empty() {
        return None;
    }
    Some(Mail {
        need_quoted: q && (local.starts_with('.') || local.ends_with('.') || local.contains("..") || local.contains(['\\', ' ', '\t'])),
        non_ascii: !local.is_ascii(),
        c: [c1, c2, c3, c4],
        local,
        host,
    })
}

pub fn print(m: &Mail) -> String {
    let c = |i: usize| m.c[i].as_ref().map(|x| format!("({x})")).unwrap_or_default();
    let q = if m.need_quoted { "\"" } else { "" };
    let h = match &m.host {
        H::Ip(IpAddr::V4(a)) => format!("[{a}]"),
        H::Ip(IpAddr::V6(a)) => format!("[IPv6:{a}]"),
        H::Name(n) => n.clone(),
    };
    format!("{}{q}{}{q}{}@{}{h}{}", c(0), m.local, c(1), c(2), c(3))
}

pub fn violated(c: &Cfg, m: &Mail) -> Vec<&'static str> {
    let mut errs = vec![];
    if c.tri("comment") == Tri::Disallow && m.c.iter().any(|x| x.is_some()) {
        errs.push("CommentDisallow");
    }
    if c.tri("non_ascii") == Tri::Disallow && m.non_ascii {
        errs.push("Invalid");
    }
    addr::tri_errs(c.tri("ip"), matches!(m.host, H::Ip(_)), "IPMust", "IPDisallow", &mut errs);
    addr::tri_errs(c.tri("local"), m.host.local(), "LocalMust", "LocalDisallow", &mut errs);
    addr::label_errs(c.tri("at_least_two_labels"), &m.host, &mut errs);
    errs
}

pub fn judge(c: &Cfg, s: &str) -> (Option<Mail>, Exp) {
    let Some(m) = parse(s) else { return (None, Exp::any_err()) };
    let errs = violated(c, &m);
    if !errs.is_empty() {
        return (Some(m), Exp::Err(errs));
    }
    let mut f: Fields = vec![("local", m.local.clone()), ("quoted", m.need_quoted.to_string()), ("domain", m.host.debug()), ("email", print(&m))];
    if c.tri("comment") == Tri::Allow {
        for (i, n) in ["comment_before_local_part", "comment_after_local_part", "comment_before_domain_part", "comment_after_domain_part"].into_iter().enumerate() {
            f.push((n, format!("{:?}", m.c[i])));
        }
    }
    if c.tri("local") == Tri::Allow && c.tri("at_least_two_labels") != Tri::Allow {
        f.push(("is_local", m.host.local().to_string()));
    }
    (Some(m), Exp::Ok(f))
}

//! One entry to the models, by validator name.
use super::{Exp, addr, basen, email, hexid, num, textm, urlm};
use crate::{Cfg, Input, Tri};
use byte_unit::{Bit, Byte};
use num::{Big, Rule};

/// None: no model for this input
pub fn judge(c: &Cfg, i: &Input) -> Option<Exp> {
    Some(match (c.v, i) {
        (v, Input::Str(_) | Input::Bytes(_)) if v.starts_with("base") => {
            let a = basen::Alpha::of(v.strip_suffix("_decoded").unwrap_or(v));
            let b: &[u8] = match i {
                Input::Str(s) => s.as_bytes(),
                Input::Bytes(b) => b,
                _ => unreachable!(),
            };
            match basen::grammar(a, b) {
                None => Exp::any_err(),
                Some((must, dis)) => match c.tri("padding") {
                    Tri::Must if !must => Exp::any_err(),
                    Tri::Disallow if !dis => Exp::any_err(),
                    _ if v.ends_with("_decoded") => match basen::decode(a, b) {
                        Some(d) => Exp::Ok(vec![("bytes", crate::hex(&d))]),
                        None => Exp::any_err(),
                    },
                    _ => Exp::Ok(vec![("text", String::from_utf8_lossy(b).into_owned())]),
                },
            }
        }
        ("bit" | "byte", _) => {
            let amount = match i {
                Input::Str(s) if c.v == "bit" => Bit::parse_str(s).ok().map(|b| b.as_u128()),
                Input::Str(s) => Byte::parse_str(s, c.opt("ignore_case") == "true").ok().map(|b| b.as_u128()),
                Input::U(u) if c.v == "bit" => Bit::from_u128(*u).map(|b| b.as_u128()),
                Input::U(u) => Byte::from_u128(*u).map(|b| b.as_u128()),
                _ => return None,
            };
            match amount {
                None => Exp::any_err(),
                Some(v) => match Rule::of(c).judge(&Big::u(v)) {
                    Some(e) => Exp::err(e),
                    None => Exp::Ok(vec![("value", v.to_string())]),
                },
            }
        }
        ("boolean", Input::Str(s)) => match num::boolean_word(s) {
            Some(b) => Exp::Ok(vec![("value", b.to_string())]),
            None => Exp::any_err(),
        },
        ("signed_integer", Input::I(v)) => num::int_value(c, &Big::i(*v)),
        ("unsigned_integer", Input::U(v)) => num::int_value(c, &Big::u(*v)),
        ("signed_integer" | "unsigned_integer", Input::Str(s)) => num::int_str(c, s),
        ("number", Input::F64(b)) => {
            let v = f64::from_bits(*b);
            num::float_value(c, if c.ty == "f32" { v as f32 as f64 } else { v })
        }
        ("number", Input::F32(b)) => num::float_value(c, f32::from_bits(*b) as f64),
        ("number", Input::Str(s)) => match (c.ty, s.parse::<f32>(), s.parse::<f64>()) {
            ("f32", Ok(v), _) => num::float_value(c, v as f64),
            ("f64", _, Ok(v)) => num::float_value(c, v),
            _ => Exp::any_err(),
        },
        ("length", Input::Bytes(b)) => {
            let p = |k: &str| c.opt(k).parse::<usize>().ok();
            if p("min").is_some_and(|m| b.len() < m) {
                Exp::err("TooSmall")
            } else if p("max").is_some_and(|m| b.len() > m) {
                Exp::err("TooLarge")
            } else {
                Exp::Ok(vec![("items", crate::hex(b)), ("len", b.len().to_string())])
            }
        }
        ("line" | "text", Input::Str(s)) => textm::judge(c, s),
        ("mac_address" | "uuid", Input::Str(s)) => hexid::judge(c, s),
        ("ip" | "ipv4" | "ipv6", Input::Str(s)) => addr::judge_ip(c, s),
        ("host", Input::Str(s)) => addr::judge_host(c, s),
        ("domain", Input::Str(s)) => addr::judge_domain(c, s),
        ("email", Input::Str(s)) => email::judge(c, s).1,
        ("url" | "http_url" | "http_ftp_url", Input::Str(s)) => urlm::judge(c, s),
        _ => return None,
    })
}

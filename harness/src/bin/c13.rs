//! C13: one classification of what is local, shared by eight validators.
#[path = "../gen/ip.rs"]
mod g1;
#[path = "../gen/ipv4.rs"]
mod g2;
#[path = "../gen/ipv6.rs"]
mod g3;
#[path = "../gen/host.rs"]
mod g4;
#[path = "../gen/domain.rs"]
mod g5;
#[path = "../gen/email.rs"]
mod g6;
#[path = "../gen/http_url.rs"]
mod g7;
#[path = "../gen/http_ftp_url.rs"]
mod g8;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::sync::LazyLock;
use vh::models::addr;
use vh::*;

static ALL: LazyLock<&'static [Cfg]> = LazyLock::new(|| join(&[g1::CFGS, g2::CFGS, g3::CFGS, g4::CFGS, g5::CFGS, g6::CFGS, g7::CFGS, g8::CFGS]));

/// one pseudo configuration per kind of subject
static SUBJECTS: &[Cfg] = &[
    Cfg { name: "IPv4 addresses, all validators", v: "4", attr: "", opts: &[], ty: "", run: none },
    Cfg { name: "IPv6 addresses, all validators", v: "6", attr: "", opts: &[], ty: "", run: none },
    Cfg { name: "names, all validators", v: "n", attr: "", opts: &[], ty: "", run: none },
];

fn none(_: &Input) -> Out {
    Out::Err(String::new())
}

struct User {
    c: &'static Cfg,
    /// where a value with this subject exists: index 0 IPv4, 1 IPv6, 2 name
    frame: [Option<&'static str>; 3],
}

/// the configurations in which the local option, or the flag, decides alone
static USERS: LazyLock<Vec<User>> = LazyLock::new(|| {
    let mut v = vec![];
    for c in ALL.iter() {
        let lab = c.opt("at_least_two_labels");
        let others = |names: &[&str]| names.iter().all(|n| c.opt(n).is_empty() || c.opt(n) == "Allow");
        if !others(&["port", "ipv4", "ip", "comment", "non_ascii"]) || lab == "Disallow" {
            continue;
        }
        // with labels(Must) only the flag is of interest
        if lab == "Must" && c.opt("local") != "Allow" || lab != "Must" && c.opt("local") == "Allow" {
            continue;
        }
        let frame = match c.v {
            "ip" => [Some("{}"), Some("{}"), None],
            "ipv4" => [Some("{}"), None, None],
            "ipv6" => [None, Some("{}"), None],
            "host" => [Some("{}"), Some("[{}]"), Some("{}")],
            "domain" => [Some("{}"), None, Some("{}")],
            "email" => [Some("a@[{}]"), Some("a@[IPv6:{}]"), Some("a@{}")],
            "http_url" => [Some("http://{}/"), Some("https://[{}]:81/"), Some("http://{}")],
            _ => [Some("ftp://{}/x"), Some("http://[{}]/"), Some("https://u:p@{}:1/")],
        };
        v.push(User { c, frame });
    }
    assert!(v.len() >= 16, "HARNESS: users");
    v
});

fn generate(plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    // IPv4: the two leading bytes in full, and every block edge
    for hi in (plan.shard..65536).step_by(plan.shards) {
        let lo: &[u16] = if plan.quick() { &[0x0001] } else { &[0, 1, 0x7fff, 0xffff] };
        for l in lo {
            let l = if *l == 1 { r.next() as u16 } else { *l };
            if !emit(0, Ipv4Addr::from((hi as u32) << 16 | l as u32).to_string().into()) {
                return;
            }
        }
    }
    if plan.shard == 0 {
        for (b, p) in addr::v4_blocks() {
            let size = 1i64 << (32 - p);
            for e in [b as i64, b as i64 + size - 1] {
                for d in -3..=3 {
                    if !emit(0, Ipv4Addr::from((e + d) as u32).to_string().into()) {
                        return;
                    }
                }
            }
        }
        // third byte of every /16 that has a /24 block
        for h in [[192u8, 0], [198, 51], [203, 0], [0, 0], [255, 255]] {
            for t in 0..=255u8 {
                for l in [0, 1, 255] {
                    if !emit(0, Ipv4Addr::new(h[0], h[1], t, l).to_string().into()) {
                        return;
                    }
                }
            }
        }
        for (b, p) in addr::v6_blocks() {
            let m = if p == 128 { 0 } else { (1u128 << (128 - p)) - 1 };
            for e in [b, b | m] {
                for d in -3i128..=3 {
                    if !emit(1, Ipv6Addr::from(e.wrapping_add(d as u128)).to_string().into()) {
                        return;
                    }
                }
            }
        }
        for n in ["localhost", "LOCALHOST", "LocalHost", "localhost.", "LOCALHOST.", "localhosts", "localhos", "xlocalhost", "localhost.x", "x.localhost", "localhost.localdomain", "localdomain", "local", "loopback", "broadcasthost", "ip6-localhost", "ｌｏｃａｌｈｏｓｔ", "localhoſt", "localhost。", "lоcalhost", "1ocalhost", "localh0st", "example.com", "home.arpa", "a.local", "xn--localhost", "localhost-", "-localhost", "local-host", "test", "invalid", "localhost..", "loc\u{ad}alhost"] {
            if !emit(2, n.into()) {
                return;
            }
        }
    }
    // IPv6: the leading group in full
    for hi in (plan.shard..65536).step_by(plan.shards) {
        if !emit(1, Ipv6Addr::from((hi as u128) << 112 | r.u128() >> 16).to_string().into()) || !emit(1, Ipv6Addr::from((hi as u128) << 112 | 1).to_string().into()) {
            return;
        }
    }
    for _ in 0..plan.n(80_000, 6_000_000) {
        let ok = match r.below(5) {
            0 | 1 => emit(0, addrgen::v4(r).to_string().into()),
            2 | 3 => emit(1, addrgen::v6(r).to_string().into()),
            _ => {
                let s = match r.below(3) {
                    0 => genstr::recase(r, "localhost"),
                    1 => genstr::mutate(r, "localhost", &[".", "ſ", "ａ", "。", "0", "-"]),
                    _ => addrgen::name(r),
                };
                emit(2, s.into())
            }
        };
        if !ok {
            return;
        }
    }
}

fn check(c: &Cfg, i: &Input, note: &mut Note) -> Result<(), String> {
    let Input::Str(s) = i else { return Ok(()) };
    let k = match c.v {
        "4" => 0,
        "6" => 1,
        _ => 2,
    };
    let ip: Option<IpAddr> = match k {
        0 => addr::v4(s).map(Into::into),
        1 => addr::v6(s).map(Into::into),
        _ => None,
    };
    let local;
    note.class = "not a subject";
    if k < 2 {
        let Some(ip) = ip else { return Ok(()) };
        local = addr::local_ip(ip);
        note.class = match (k, local) {
            (0, true) => "v4 local",
            (0, _) => "v4 public",
            (_, true) => "v6 local",
            _ => "v6 public",
        };
        use validators::functions as f;
        let d = match ip {
            IpAddr::V4(a) => f::is_local_ipv4(a),
            IpAddr::V6(a) => f::is_local_ipv6(a),
        };
        if d != local || f::is_local_ip(ip) != local {
            return Err(format!("is_local_* says {d}, expected {local}"));
        }
    } else {
        let Some(n) = addr::ascii_name(s) else { return Ok(()) };
        let b = n.strip_suffix('.').unwrap_or(&n);
        if addr::v4(b).is_some() {
            return Ok(());
        }
        local = addr::local_name(&n);
        note.class = if local { "name local" } else { "name public" };
        if validators::functions::is_local_domain(&n) != local {
            return Err(format!("is_local_domain says {}, expected {local}", !local));
        }
    }
    note.nontrivial = true;
    for u in USERS.iter() {
        let Some(frame) = u.frame[k] else { continue };
        let text = frame.replace("{}", s);
        if k == 2 {
            // only where the name itself is admissible
            let ok = match u.c.v {
                "host" => addr::host(s).is_some(),
                "email" => models::email::parse(&text).is_some(),
                "domain" => true,
                // the URL parser has its own, different, idea of what a name is
                _ => url::Url::parse(&text).is_ok_and(|u| u.domain().is_some_and(|d| d == addr::ascii_name(s).unwrap())),
            };
            if !ok {
                continue;
            }
        }
        let o = u.c.exec(&text.as_str().into());
        note.evals += 1;
        let say = |m: String| Err(format!("{} on {text:?}: {m}", u.c.name));
        match (&o, u.c.tri("local")) {
            (Out::Panic(m) | Out::Broken(m), _) => return say(m.clone()),
            (Out::Ok(_), Tri::Must) if local => {}
            (Out::Ok(_), Tri::Disallow) if !local => {}
            (Out::Err(e), Tri::Must) if !local && e == "LocalMust" => {}
            (Out::Err(e), Tri::Disallow) if local && e == "LocalDisallow" => {}
            (Out::Ok(_), Tri::Allow) => match o.field("is_local") {
                Some(f) if f == local.to_string() => {}
                // the URL validators have no flag
                None if u.c.v.starts_with("http") => {}
                f => return say(format!("is_local = {f:?}, expected {local}")),
            },
            // one label that is not local
            (Out::Err(e), Tri::Allow) if e == "AtLeastTwoLabelsMust" && k == 2 && !local => {}
            _ => return say(format!("{o:?}, but the subject is {}local", if local { "" } else { "not " })),
        }
    }
    Ok(())
}

fn main() {
    vh::main(&Simple {
        long: LONG,
        id: "C13",
        rule: "every IPv4 /16 and every leading IPv6 group with random and with minimal remainders, every edge of the reserved blocks +-3, every /24 next to the documentation blocks, random addresses aimed at the blocks, and names near localhost; each subject is put to every configuration of the eight validators in which the local option or flag decides, and to the public is_local functions. Non-trivial: a well-formed subject",
        assumptions: &["whether a name may appear in a URL is left to the url crate"],
        cfgs: SUBJECTS,
        generate,
        check,
    })
}

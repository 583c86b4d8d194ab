//! C16: the printed authority is canonical and parses back.
#[path = "../gen/ip.rs"]
mod g1;
#[path = "../gen/ipv4.rs"]
mod g2;
#[path = "../gen/ipv6.rs"]
mod g3;
#[path = "../gen/host.rs"]
mod g4;
#[path = "../gen/domain.rs"]
mod g5;
#[path = "../addrbin.rs"]
mod addrbin;
use std::sync::LazyLock;
use vh::models::addr;
use vh::*;

static CFGS: LazyLock<&'static [Cfg]> = LazyLock::new(|| join(&[g1::CFGS, g2::CFGS, g3::CFGS, g4::CFGS, g5::CFGS]));

fn generate(plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    // values first: anything a configuration can hold
    for _ in 0..plan.n(1_000_000, 60_000_000) {
        let ci = r.below(CFGS.len());
        let c = &CFGS[ci];
        let want_local = match c.tri("local") {
            Tri::Must => Some(true),
            Tri::Disallow => Some(false),
            Tri::Allow => None,
        };
        let mut h = String::new();
        for _ in 0..8 {
            let k = match c.v {
                "ip" => r.below(2),
                "ipv4" => 0,
                "ipv6" => 1,
                "host" => r.below(3),
                _ if c.tri("ipv4") == Tri::Must => 0,
                _ if c.tri("ipv4") == Tri::Disallow => 2,
                _ => *r.pick(&[0, 2]),
            };
            let (t, l) = match k {
                0 => {
                    let a = addrgen::v4(r);
                    (a.to_string() + if c.v == "domain" && r.chance(1, 3) { "." } else { "" }, addr::local4(a))
                }
                1 => {
                    let a = addrgen::v6(r);
                    (format!("[{}]", addrgen::spell6(r, a)), addr::local6(a))
                }
                _ => {
                    let n = addrgen::name(r);
                    let l = addr::ascii_name(&n).is_some_and(|x| addr::local_name(&x));
                    (n, l)
                }
            };
            h = t;
            if want_local.is_none_or(|w| w == l) {
                break;
            }
        }
        if match c.tri("port") {
            Tri::Must => true,
            Tri::Disallow => false,
            Tri::Allow => r.bool(),
        } {
            let q = r.below(65536);
            let p = *r.pick(&[0, 1, 80, 443, 8080, 65535, q, q]);
            h = if r.chance(1, 6) { format!("{h}:{p:07}") } else { format!("{h}:{p}") };
        }
        if !emit(ci, h.into()) {
            return;
        }
    }
    addrbin::generate(*CFGS, 300_000, plan, r, emit)
}

fn check(c: &Cfg, i: &Input, note: &mut Note) -> Result<(), String> {
    let Input::Str(s) = i else { return Ok(()) };
    let o = c.exec(i);
    note.class = "not accepted";
    let Some(auth) = o.field("auth") else {
        return match o {
            Out::Panic(m) | Out::Broken(m) => Err(m),
            _ => Ok(()),
        };
    };
    note.nontrivial = true;
    note.evals = 2;
    note.class = c.v;
    let e = match c.v {
        "host" => addr::judge_host(c, s),
        "domain" => addr::judge_domain(c, s),
        _ => addr::judge_ip(c, s),
    };
    if let models::Exp::Ok(f) = &e {
        let want = &f.iter().find(|x| x.0 == "auth").unwrap().1;
        if want != auth {
            return Err(format!("prints {auth:?}, expected {want:?}"));
        }
    }
    let p = c.exec(&auth.into());
    let Out::Ok(mut a) = o.clone() else { unreachable!() };
    let Out::Ok(b) = p else { return Err(format!("prints {auth:?} which is not accepted back: {p:?}")) };
    for x in a.iter_mut() {
        match x.0 {
            "domain" => x.1 = o.field("nfq").unwrap().to_string(),
            "fq" => x.1 = "false".into(),
            _ => {}
        }
    }
    if a != b {
        return Err(format!("prints {auth:?}, which parses to {b:?} instead of {a:?}"));
    }
    Ok(())
}

fn main() {
    vh::main(&Simple {
        long: LONG,
        id: "C16",
        rule: "values of every configuration built from addresses, spellings, names and ports that its options allow, plus arbitrary authorities; each accepted one is printed, compared with the canonical text of the model and parsed again by the same validator. Non-trivial: accepted, so that both steps happen",
        assumptions: &["the canonical text of an IPv6 address is the one the standard library prints"],
        cfgs: *CFGS,
        generate,
        check,
    })
}

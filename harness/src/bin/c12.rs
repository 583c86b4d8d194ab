//! C12: ip, ipv4, ipv6.
#[path = "../gen/ip.rs"]
mod g1;
#[path = "../gen/ipv4.rs"]
mod g2;
#[path = "../gen/ipv6.rs"]
mod g3;
#[path = "../addrbin.rs"]
mod addrbin;
use std::sync::LazyLock;
use vh::models::addr;
use vh::*;

static CFGS: LazyLock<&'static [Cfg]> = LazyLock::new(|| join(&[g1::CFGS, g2::CFGS, g3::CFGS]));

fn generate(plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    // every port with each validator that may have one
    for ci in 0..CFGS.len() {
        if CFGS[ci].opt("port") != "Disallow" && CFGS[ci].opt("local") == "Allow" {
            for p in (plan.shard..66_000).step_by(plan.shards) {
                let s = if CFGS[ci].v == "ipv6" || p % 2 == 0 && CFGS[ci].v == "ip" { format!("[2001::{p:x}]:{p}") } else { format!("8.8.8.8:{p}") };
                if !emit(ci, s.into()) {
                    return;
                }
            }
        }
    }
    addrbin::generate(*CFGS, 1_500_000, plan, r, emit)
}

fn check(c: &Cfg, i: &Input, note: &mut Note) -> Result<(), String> {
    let Input::Str(s) = i else { return Ok(()) };
    let e = addr::judge_ip(c, s);
    addrbin::note(&e, s, note);
    e.judge(&c.exec(i))
}

fn main() {
    vh::main(&Simple { long: LONG, id: "C12", rule: addrbin::RULE, assumptions: &["an IPv6 zone identifier is not part of a standard textual address"], cfgs: *CFGS, generate, check })
}

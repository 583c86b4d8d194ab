//! C15: the domain validator.
#[path = "../addrbin.rs"]
mod addrbin;
#[path = "../gen/domain.rs"]
mod gen_;
use gen_::CFGS;
use vh::models::addr;
use vh::*;

fn generate(plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    addrbin::generate(CFGS, 1_200_000, plan, r, emit)
}

fn check(c: &Cfg, i: &Input, note: &mut Note) -> Result<(), String> {
    let Input::Str(s) = i else { return Ok(()) };
    let e = addr::judge_domain(c, s);
    addrbin::note(&e, s, note);
    e.judge(&c.exec(i))
}

fn main() {
    vh::main(&Simple {
        long: LONG,
        id: "C15",
        rule: addrbin::RULE,
        assumptions: &["names that are not plain ASCII or contain xn-- are judged by the idna crate itself (UTS 46, STD3 rules, hyphens and DNS lengths checked); plain ASCII names by an independent model"],
        cfgs: CFGS,
        generate,
        check,
    })
}

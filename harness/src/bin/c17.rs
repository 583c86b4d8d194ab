//! C17: which emails are accepted.
#[path = "../gen/email.rs"]
mod gen_;
#[path = "../mailbin.rs"]
mod mailbin;
use gen_::CFGS;
use vh::models::{Exp, email};
use vh::*;

fn generate(plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    mailbin::generate(CFGS, 1_500_000, plan, r, emit)
}

fn check(c: &Cfg, i: &Input, note: &mut Note) -> Result<(), String> {
    let Input::Str(s) = i else { return Ok(()) };
    let (_, e) = email::judge(c, s);
    mailbin::note(&e, s, note);
    let e = match e {
        Exp::Ok(_) => Exp::Ok(vec![]),
        e => e,
    };
    e.judge(&c.exec(i))
}

fn main() {
    vh::main(&Simple {
        long: LONG,
        id: "C17",
        rule: "for every combination of the five options: a list of corner cases, every ASCII character in 18 frames, random emails built from comments in four places, unquoted and quoted local parts with escapes, names, bracketed addresses, lengths around 64 and 255 bytes, mutated; all strings up to length 6 over the eight special characters for three configurations. Non-trivial: well-formed so that the options decide, or a malformed text with an @ and more than three bytes",
        assumptions: &["names that are not plain ASCII are judged by the idna crate itself"],
        cfgs: CFGS,
        generate,
        check,
    })
}

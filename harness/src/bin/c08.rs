//! C08: the line validator.
#[path = "../gen/lines.rs"]
mod gen_;
#[path = "../textgen.rs"]
mod textgen;
use gen_::CFGS;
use vh::*;

fn generate(plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    textgen::generate(CFGS, plan, r, emit)
}

fn main() {
    vh::main(&Simple {
        long: LONG,
        id: "C08",
        rule: textgen::RULE,
        assumptions: &["surrounding whitespace is Unicode White_Space, as in str::trim"],
        cfgs: CFGS,
        generate,
        check: textgen::check,
    })
}

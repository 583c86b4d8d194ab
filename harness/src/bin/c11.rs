//! C11: the uuid validator.
#[path = "../gen/uuid.rs"]
mod gen_;
#[path = "../hexgen.rs"]
mod hexgen;
use gen_::CFGS;
use vh::*;

fn generate(plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    hexgen::generate(CFGS, plan, r, emit)
}

fn main() {
    vh::main(&Simple {
        long: LONG,
        id: "C11",
        rule: hexgen::RULE,
        assumptions: &["separators are ASCII and not hexadecimal digits"],
        cfgs: CFGS,
        generate,
        check: hexgen::check,
    })
}

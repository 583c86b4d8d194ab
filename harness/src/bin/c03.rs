//! C03: boolean spellings.
#[path = "../gen/boolean.rs"]
mod gen_;
use gen_::CFGS;
use vh::models::{Exp, num};
use vh::*;

const WORDS: &[&str] = &["true", "t", "yes", "y", "on", "1", "false", "f", "no", "n", "off", "0"];

fn generate(plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
    // every char, as a char and as a one-character text
    let mut c = plan.shard as u32;
    while c <= 0x10ffff {
        if let Some(ch) = char::from_u32(c) {
            if !emit(0, Input::Char(ch)) || !emit(0, ch.to_string().into()) {
                return;
            }
        }
        c += plan.shards as u32;
    }
    // every text up to 3 letters (5 in thorough) over the letters of the words
    let alpha: Vec<char> = "truefalsyonTRUEFALSYON01 ".chars().collect();
    for len in 0..=(if plan.quick() { 4 } else { 5 }) {
        let mut go = true;
        vh::genstr::enumerate(&alpha, len, plan.shard, plan.shards, &mut |s| {
            go = emit(0, s.into());
            go
        });
        if !go {
            return;
        }
    }
    // every letter case of every word
    if plan.shard == 0 {
        for w in WORDS {
            for m in 0..1u32 << w.len() {
                let s: String = w.chars().enumerate().map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
                if !emit(0, s.into()) {
                    return;
                }
            }
        }
        for b in [false, true] {
            emit(0, Input::Bool(b));
        }
        for k in 0..128 {
            for d in -2i128..=2 {
                let v = (1i128 << k.min(126)).wrapping_add(d);
                if !emit(0, Input::I(v)) || !emit(0, Input::I(-v)) || !emit(0, Input::U((1u128 << k).wrapping_add(d as u128))) {
                    return;
                }
            }
        }
    }
    for _ in 0..plan.n(1_500_000, 100_000_000) {
        let i = match r.below(8) {
            0 => Input::I(r.u128() as i128 >> r.below(128)),
            1 => Input::U(r.u128() >> r.below(128)),
            2 => vh::genstr::random(r, 8).into(),
            _ => {
                let w = *r.pick(WORDS);
                let w = vh::genstr::recase(r, w);
                vh::genstr::mutate(r, &w, WORDS).into()
            }
        };
        if !emit(0, i) {
            return;
        }
    }
}

fn check(c: &Cfg, i: &Input, note: &mut Note) -> Result<(), String> {
    let want = match i {
        Input::Str(s) => num::boolean_word(s),
        Input::Char(c) => match c {
            't' | 'T' | 'y' | 'Y' | '1' => Some(true),
            'f' | 'F' | 'n' | 'N' | '0' => Some(false),
            _ => None,
        },
        Input::Bool(b) => Some(*b),
        Input::I(0) | Input::U(0) => Some(false),
        Input::I(1) | Input::U(1) => Some(true),
        _ => None,
    };
    note.nontrivial = match i {
        Input::Str(s) => s.chars().count() <= 7,
        _ => true,
    };
    note.class = if want.is_some() { "accept" } else { "reject" };
    let e = match want {
        Some(b) => Exp::Ok(vec![("value", b.to_string())]),
        None => Exp::any_err(),
    };
    e.judge(&c.exec(i))
}

fn main() {
    vh::main(&Simple {
        long: LONG,
        id: "C03",
        rule: "every char (as char and as text), every text up to 4 characters (5 in thorough) over the letters of the words, every letter case of every word, mutated words, integers around every power of two. Non-trivial: any char, integer or bool, and texts of at most 7 characters",
        assumptions: &[],
        cfgs: CFGS,
        generate,
        check,
    })
}

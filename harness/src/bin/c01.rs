//! C01: base-N text acceptance.
#[path = "../gen/basen.rs"]
mod gen_;
use gen_::CFGS;
use vh::models::basen::*;
use vh::models::Exp;
use vh::*;

struct P;

/// texts shared with C02
pub fn gen_text(r: &mut Rng, a: Alpha) -> Vec<u8> {
    let n = match r.below(6) {
        0 => r.below(4),
        5 if r.chance(1, 500) => *r.pick(&[96, 125, 255, 256, 257, 1023, 1024, 3000, 4096, 49152, 65535, 65536]) + r.below(6),
        5 => r.below(70),
        _ => r.below(14),
    };
    let data: Vec<u8> = (0..n).map(|_| if r.chance(1, 4) { *r.pick(&[0, 255, 0x0f, 0xf0]) } else { r.next() as u8 }).collect();
    let mut s = match r.below(4) {
        0 | 1 => a.encode(&data, true).into_bytes(),
        2 => a.encode(&data, false).into_bytes(),
        _ => {
            // digits of any count, then any padding count
            let d = r.below(20);
            let mut s: Vec<u8> = (0..d).map(|_| *r.pick(a.table())).collect();
            s.extend(std::iter::repeat_n(b'=', if r.bool() { 0 } else { r.below(9) }));
            s
        }
    };
    if r.chance(1, 2) {
        for _ in 0..1 + r.below(2) {
            let i = match r.below(4) {
                0 => 0,
                1 => s.len(),
                _ => r.range(0, s.len()),
            };
            let c = match r.below(6) {
                0 => b'=',
                1 => *r.pick(b"+/-_ \n\r\t018aAzZ[`{@:.~\0"),
                2 => r.next() as u8,
                3 => *r.pick(&[0x7f, 0x80, 0xff, 0xc2, 0xbd]),
                _ => *r.pick(a.table()),
            };
            match r.below(4) {
                0 => s.insert(i, c),
                1 if i < s.len() => {
                    s.remove(i);
                }
                2 if i < s.len() => s[i] = c,
                _ => s.push(c),
            }
        }
    }
    s
}

impl Property for P {
    fn scale(&self) -> usize {
        3
    }
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> String {
        "texts encoded from random bytes, digit runs with any padding count, 0-2 byte edits; all texts up to length 8 (block 4) over {two digits, '=', foreign}; every single byte at every position of a block. Non-trivial: the text follows the grammar for some padding option, or is one byte class away from it (only digits and '=')".into()
    }
    fn cfg_names(&self) -> Vec<String> {
        CFGS.iter().map(|c| c.name.to_string()).collect()
    }
    fn generate(&self, plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
        let mut k = 0usize;
        for ci in 0..CFGS.len() {
            let a = Alpha::of(CFGS[ci].v);
            // exhaustive: lengths over a reduced alphabet
            let maxlen = if plan.quick() { 9 } else { 11 };
            for len in 0..=maxlen {
                let alpha = if len <= 6 { vec!['A', '7', '=', '*'] } else { vec!['B', '='] };
                let mut go = true;
                vh::genstr::enumerate(&alpha, len, plan.shard, plan.shards, &mut |s| {
                    go = emit(ci, if s.len() % 2 == 0 { Input::Str(s) } else { Input::Bytes(s.into_bytes()) });
                    go
                });
                if !go {
                    return;
                }
            }
            // every digit count and padding count
            for d in 0..=34 {
                for p in 0..=9 {
                    k += 1;
                    if k % plan.shards == plan.shard {
                        let s: String = (0..d).map(|_| *r.pick(a.table()) as char).chain(std::iter::repeat_n('=', p)).collect();
                        if !emit(ci, s.into()) {
                            return;
                        }
                    }
                }
            }
            // every byte at every position of one and two blocks
            for len in [a.block(), 2 * a.block()] {
                for pos in 0..len {
                    for b in 0..=255u8 {
                        k += 1;
                        if k % plan.shards == plan.shard {
                            let mut s = vec![a.table()[7]; len];
                            s[pos] = b;
                            let ok = match String::from_utf8(s.clone()) {
                                Ok(t) => emit(ci, t.into()) && emit(ci, Input::Bytes(s)),
                                Err(_) => emit(ci, Input::Bytes(s)),
                            };
                            if !ok {
                                return;
                            }
                        }
                    }
                }
            }
        }
        for _ in 0..plan.n(4_000_000, 300_000_000) {
            let ci = r.below(CFGS.len());
            let s = gen_text(r, Alpha::of(CFGS[ci].v));
            let i = match String::from_utf8(s) {
                Ok(s) => {
                    if r.bool() {
                        Input::Str(s)
                    } else {
                        Input::Bytes(s.into_bytes())
                    }
                }
                Err(e) => Input::Bytes(e.into_bytes()),
            };
            if !emit(ci, i) {
                return;
            }
        }
    }
    fn check(&self, ci: usize, i: &Input, note: &mut Note) -> Result<(), String> {
        let c = &CFGS[ci];
        let a = Alpha::of(c.v);
        let b: &[u8] = match i {
            Input::Str(s) => s.as_bytes(),
            Input::Bytes(b) => b,
            _ => return Ok(()),
        };
        let text = String::from_utf8_lossy(b).into_owned();
        let exp = match grammar(a, b) {
            None => Exp::any_err(),
            Some((must, dis)) => match c.tri("padding") {
                Tri::Must if !must => Exp::err("PaddingMust"),
                Tri::Disallow if !dis => Exp::err("PaddingDisallow"),
                _ => Exp::Ok(vec![("text", text)]),
            },
        };
        note.nontrivial = shape(a, b).is_some();
        note.class = match &exp {
            Exp::Ok(_) => "accept",
            Exp::Err(v) if v.is_empty() => "reject-grammar",
            _ => "reject-padding-option",
        };
        exp.judge(&c.exec(i))?;
        // the other kind of entry point
        if let Input::Bytes(b) = i {
            if let Ok(s) = std::str::from_utf8(b) {
                note.evals = 2;
                exp.judge(&c.exec(&s.into()))?;
            }
        }
        Ok(())
    }
}

fn main() {
    vh::main(&P)
}

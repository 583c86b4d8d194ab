//! C02: decoding base-N validators.
#[path = "../gen/basen_decoded.rs"]
mod gen_;
use gen_::CFGS;
use vh::models::Exp;
use vh::models::basen::*;
use vh::*;

struct P;

fn case(r: &mut Rng, a: Alpha) -> Input {
    let n = match r.below(6) {
        0 => r.below(4),
        5 if r.chance(1, 500) => *r.pick(&[96, 125, 255, 256, 257, 1023, 1024, 3000, 4096, 49152, 65535, 65536]) + r.below(6),
        5 => r.below(70),
        _ => r.below(14),
    };
    let data: Vec<u8> = (0..n).map(|_| if r.chance(1, 4) { *r.pick(&[0, 255, 0x0f, 0xf0]) } else { r.next() as u8 }).collect();
    if r.chance(1, 4) {
        return Input::List(vec![Input::Bytes(data), Input::Bool(r.bool())]);
    }
    let mut s = match r.below(5) {
        0 | 1 => a.encode(&data, true).into_bytes(),
        2 => a.encode(&data, false).into_bytes(),
        3 => {
            // non-canonical trailing bits: replace the last digit
            let mut s = a.encode(&data, r.bool()).into_bytes();
            if let Some(p) = s.iter().rposition(|c| *c != b'=') {
                s[p] = *r.pick(a.table());
            }
            s
        }
        _ => {
            let d = r.below(20);
            let mut s: Vec<u8> = (0..d).map(|_| *r.pick(a.table())).collect();
            s.extend(std::iter::repeat_n(b'=', if r.bool() { 0 } else { r.below(9) }));
            s
        }
    };
    if r.chance(1, 3) {
        let i = r.range(0, s.len());
        let c = match r.below(5) {
            0 => b'=',
            1 => *r.pick(b"+/-_ \n\r\t018aAzZ[`{@:.~\0"),
            2 => r.next() as u8,
            _ => *r.pick(a.table()),
        };
        match r.below(4) {
            0 => s.insert(i, c),
            1 if i < s.len() => {
                s.remove(i);
            }
            2 if i < s.len() => s[i] = c,
            _ => s.push(c),
        }
    }
    match String::from_utf8(s) {
        Ok(s) if r.bool() => Input::Str(s),
        Ok(s) => Input::Bytes(s.into_bytes()),
        Err(e) => Input::Bytes(e.into_bytes()),
    }
}

impl Property for P {
    fn scale(&self) -> usize {
        3
    }
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> String {
        "byte sequences encoded by the reference codec with or without padding ([bytes, padded] cases: must decode to the same bytes when the option permits), and texts with trailing-bit, padding and single-byte edits. Non-trivial: only digits and '='".into()
    }
    fn cfg_names(&self) -> Vec<String> {
        CFGS.iter().map(|c| c.name.to_string()).collect()
    }
    fn generate(&self, plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
        let mut k = 0;
        for ci in 0..CFGS.len() {
            let a = Alpha::of(CFGS[ci].v);
            for d in 0..=34 {
                for p in 0..=9 {
                    for z in [true, false] {
                        k += 1;
                        if k % plan.shards == plan.shard {
                            // z: last digit 'A', so that trailing bits are zero
                            let mut s: Vec<u8> = (0..d).map(|_| *r.pick(a.table())).collect();
                            if z && let Some(l) = s.last_mut() {
                                *l = b'A';
                            }
                            s.extend(std::iter::repeat_n(b'=', p));
                            if !emit(ci, Input::Bytes(s)) {
                                return;
                            }
                        }
                    }
                }
            }
            // every last digit for every partial length
            for d in 1..=a.block() {
                for t in a.table() {
                    for pad in [false, true] {
                        k += 1;
                        if k % plan.shards == plan.shard {
                            let mut s: Vec<u8> = (0..d).map(|_| *r.pick(a.table())).collect();
                            s[d - 1] = *t;
                            while pad && s.len() % a.block() != 0 {
                                s.push(b'=');
                            }
                            if !emit(ci, Input::Str(String::from_utf8(s).unwrap())) {
                                return;
                            }
                        }
                    }
                }
            }
        }
        for _ in 0..plan.n(4_000_000, 300_000_000) {
            let ci = r.below(CFGS.len());
            if !emit(ci, case(r, Alpha::of(CFGS[ci].v))) {
                return;
            }
        }
    }
    fn check(&self, ci: usize, i: &Input, note: &mut Note) -> Result<(), String> {
        let c = &CFGS[ci];
        let a = Alpha::of(c.v);
        let b: Vec<u8> = match i {
            Input::Str(s) => s.clone().into_bytes(),
            Input::Bytes(b) => b.clone(),
            Input::List(l) => match &l[..] {
                [Input::Bytes(d), Input::Bool(p)] => {
                    // round trip stated directly: decode(encode(d)) = d
                    let t = a.encode(d, *p);
                    let full = a.encode(d, true) == a.encode(d, false);
                    let ok = !d.is_empty()
                        && match c.tri("padding") {
                            Tri::Must => *p || full,
                            Tri::Disallow => !*p || full,
                            Tri::Allow => true,
                        };
                    note.nontrivial = !d.is_empty();
                    note.class = "encoded";
                    let out = c.exec(&Input::Bytes(t.into_bytes()));
                    return if ok {
                        Exp::Ok(vec![("bytes", hex(d)), ("len", d.len().to_string())]).judge(&out)
                    } else {
                        Exp::any_err().judge(&out)
                    };
                }
                _ => return Ok(()),
            },
            _ => return Ok(()),
        };
        let exp = match grammar(a, &b) {
            None => Exp::any_err(),
            Some((must, dis)) => {
                let permitted = match c.tri("padding") {
                    Tri::Must => must,
                    Tri::Disallow => dis,
                    Tri::Allow => true,
                };
                match decode(a, &b) {
                    Some(d) if permitted => Exp::Ok(vec![
                        ("bytes", hex(&d)),
                        ("len", d.len().to_string()),
                        ("empty", d.is_empty().to_string()),
                    ]),
                    _ => Exp::any_err(),
                }
            }
        };
        note.nontrivial = shape(a, &b).is_some();
        note.class = if exp.is_ok() { "accept" } else { "reject" };
        exp.judge(&c.exec(i))?;
        if let (Input::Bytes(b), true) = (i, note.nontrivial) {
            if let Ok(s) = std::str::from_utf8(b) {
                exp.judge(&c.exec(&s.into()))?;
                note.evals = 2;
            }
        }
        Ok(())
    }
}

fn main() {
    vh::main(&P)
}

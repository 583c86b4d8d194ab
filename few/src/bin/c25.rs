//! C25: the capturing result is exactly what direct validation returned.
use serde_json::Value;
use vf::offer;
use vf::*;
use vh::data::*;

struct C25;

fn expect(w: &Few, what: &str, dir: &Dir, got: &Result<Out, String>) -> Result<(), String> {
    match (dir, got) {
        (_, Ok(Out::Broken(m))) => Err(format!("{what}: {m}")),
        (Dir::Any, _) => Ok(()),
        (Dir::Reject, Err(_)) => Ok(()),
        (Dir::Reject, Ok(Out::Err(_))) if w.v == "json" => Ok(()),
        (Dir::Reject, Ok(o)) => Err(format!("{what}: nothing direct accepts this kind of data, but the capturing result is {o:?}")),
        (Dir::Out(a), Ok(g)) if a == g => Ok(()),
        (Dir::Out(a), g) => Err(format!("{what}: direct validation gives {a:?}, the capturing result is {g:?}")),
    }
}

impl Property for C25 {
    fn scale(&self) -> usize {
        2
    }
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> String {
        "values of the whole serde data model offered to the capturing results of validators of every kind, in a readable and an unreadable format with borrowed, transient and owned strings and as JSON text, and through every conversion (FromStr, From<&str>, From<String>, From<bool/char/bytes/integers/floats/Value>); every view of the captured result is compared. Non-trivial: the data is of a kind the validator has an entry point for".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["serde and serde_json work".into()]
    }
    fn cfg_names(&self) -> Vec<String> {
        FEW.iter().map(|w| w.name.to_string()).collect()
    }
    fn generate(&self, plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
        offer::generate(plan, r, 1_500_000, 60_000_000, emit)
    }
    fn check(&self, cfg: usize, i: &Input, note: &mut Note) -> Result<(), String> {
        let Some(d) = D::from_input(i) else { return Ok(()) };
        let w = &FEW[cfg];
        for human in [true, false] {
            let dir = (w.direct)(&d, human);
            note.class = match &dir {
                Dir::Any => "unspecified",
                Dir::Reject => "wrong kind of data",
                Dir::Out(Out::Ok(_)) => "accept",
                _ => "reject",
            };
            note.nontrivial = matches!(dir, Dir::Out(_));
            for own in [Own::Borrowed, Own::Transient, Own::Owned] {
                expect(w, &format!("human readable {human}, {own:?}"), &dir, &(w.de_res)(De { d: &d, human, own }))?;
            }
        }
        // the conversions exist for what is directly accepted in some form
        let dir = match &d {
            D::U8(_) | D::U16(_) | D::U32(_) | D::U64(_) if w.kind == "Bits" => (w.direct)(&D::U128(d.int().unwrap().unwrap() as u128), false),
            D::U128(_) if w.kind == "Bits" => (w.direct)(&d, false),
            _ => (w.direct)(&d, true),
        };
        for (n, o) in (w.conv)(&d).unwrap_or_default() {
            expect(w, n, &dir, &Ok(o))?;
        }
        if let Some(t) = d.json().map(|v| v.to_string()) {
            if let Ok(v) = serde_json::from_str::<Value>(&t) {
                expect(w, &format!("JSON {t}"), &(w.direct)(&offer::from_json(&v), true), &(w.json_res)(&t))?;
            }
        }
        Ok(())
    }
}

fn main() {
    vh::main(&C25)
}

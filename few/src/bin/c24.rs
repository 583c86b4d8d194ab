//! C24: Serialize and Deserialize agree with direct validation.
use serde_json::Value;
use vf::offer;
use vf::*;
use vh::data::*;

struct C24;

fn name(i: usize) -> &'static str {
    FEW[i].name
}

/// equal up to what the data model cannot tell apart
fn same(a: &D, b: &D) -> bool {
    match (a, b) {
        (D::F32(x), D::F64(y)) => f32::from_bits(*x) as f64 == f64::from_bits(*y) || f32::from_bits(*x).is_nan() && f64::from_bits(*y).is_nan(),
        (D::F64(x), D::F64(y)) => x == y || f64::from_bits(*x).is_nan() && f64::from_bits(*y).is_nan(),
        (D::Seq(x), D::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (D::Map(x), D::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(&a.0, &b.0) && same(&a.1, &b.1)),
        _ => match (a.int(), b.int()) {
            (Some(x), Some(y)) => x == y,
            _ => a == b,
        },
    }
}

/// a final dot of a domain is not kept when it is printed
fn undot(w: &Few, o: &Out) -> String {
    let s = format!("{o:?}");
    if matches!(w.v, "domain" | "host" | "email") { s.replace(".\\\"", "\\\"") } else { s }
}

fn expect(what: &str, dir: &Dir, got: &Result<Out, String>) -> Result<(), String> {
    match (dir, got) {
        (Dir::Any, _) => Ok(()),
        (Dir::Reject, Err(_)) => Ok(()),
        (Dir::Reject, Ok(o)) => Err(format!("{what}: nothing direct accepts this kind of data, but deserialising gives {o:?}")),
        (Dir::Out(Out::Ok(v)), Ok(Out::Ok(g))) if v == g => Ok(()),
        (Dir::Out(Out::Err(_)), Err(_)) => Ok(()),
        (Dir::Out(a), g) => Err(format!("{what}: direct validation gives {a:?}, deserialising gives {g:?}")),
    }
}

fn go(i: usize, d: &D, note: &mut Note) -> Result<(), String> {
    let w = &FEW[i];
    for human in [true, false] {
        let dir = (w.direct)(d, human);
        if let Dir::Out(Out::Broken(m) | Out::Panic(m)) = &dir {
            return Err(m.clone());
        }
        note.class = match &dir {
            Dir::Any => "unspecified",
            Dir::Reject => "wrong kind of data",
            Dir::Out(Out::Ok(_)) => "accept",
            _ => "reject",
        };
        note.nontrivial = matches!(dir, Dir::Out(_));
        for own in [Own::Borrowed, Own::Transient, Own::Owned] {
            let got = (w.de)(De { d, human, own });
            expect(&format!("human readable {human}, {own:?}"), &dir, &got)?;
        }
        if let Some((value, ser, canon)) = (w.ser)(d, human) {
            let ser = ser.map_err(|e| format!("an accepted value does not serialise: {e}"))?;
            if let Some(c) = &canon {
                if !same(&ser, c) {
                    return Err(format!("human readable {human}: {value:?} serialises as {ser:?} instead of {c:?}"));
                }
            }
            if !matches!(w.kind, "Dec" | "Json" | "Phone") {
                for own in [Own::Borrowed, Own::Transient, Own::Owned] {
                    let back = (w.de)(De { d: &ser, human, own });
                    match &back {
                        Ok(b) if undot(w, b) == undot(w, &value) => {}
                        _ => return Err(format!("human readable {human}, {own:?}: {value:?} serialises as {ser:?}, which deserialises as {back:?}")),
                    }
                }
                if let (true, Some(j)) = (human, ser.json()) {
                    let t = j.to_string();
                    let exact = w.kind != "Num" || serde_json::from_str::<f64>(&t).ok().map(f64::to_bits) == j.as_f64().map(f64::to_bits);
                    if exact {
                        match (w.json)(&t) {
                            Ok(b) if undot(w, &b) == undot(w, &value) => {}
                            b => return Err(format!("{value:?} is {t} in JSON, which deserialises as {b:?}")),
                        }
                    }
                }
            }
        }
    }
    // JSON text
    if let Some(t) = d.json().map(|v| v.to_string()) {
        if let Ok(v) = serde_json::from_str::<Value>(&t) {
            expect(&format!("JSON {t}"), &(w.direct)(&offer::from_json(&v), true), &(w.json)(&t))?;
            // also when escapes force the parser to own its strings
            if let D::Str(s) = d {
                let e: String = s.encode_utf16().map(|u| format!("\\u{u:04x}")).collect();
                let t = format!("\"{e}\"");
                expect(&format!("JSON {t}"), &(w.direct)(d, true), &(w.json)(&t))?;
            }
        }
    }
    if let Some(bin) = w.bin {
        if let Some((a, b)) = bin(d) {
            match &b {
                _ if matches!(w.kind, "Dec" | "Json" | "Phone") => {}
                Ok(x) if undot(w, x) == undot(w, &a) => {}
                _ => return Err(format!("{a:?} comes back from bincode as {b:?}")),
            }
        }
    }
    Ok(())
}

impl Property for C24 {
    fn scale(&self) -> usize {
        3
    }
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> String {
        "values of the whole serde data model (texts, bytes, characters, integers of every width, floats, options, sequences, maps) offered to validators of every kind in a readable and an unreadable format with borrowed, transient and owned strings, as JSON text with and without escapes, and through bincode; what is accepted is serialised and deserialised again. Non-trivial: the data is of a kind the validator has an entry point for".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["serde, serde_json and bincode work".into(), "JSON text keeps fractions only as exactly as serde_json parses them".into(), "base*_decoded, json and phone serialise to another shape than they read".into()]
    }
    fn cfg_names(&self) -> Vec<String> {
        (0..FEW.len()).map(|i| name(i).to_string()).collect()
    }
    fn generate(&self, plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
        offer::generate(plan, r, 1_500_000, 60_000_000, emit)
    }
    fn check(&self, cfg: usize, i: &Input, note: &mut Note) -> Result<(), String> {
        let Some(d) = D::from_input(i) else { return Ok(()) };
        go(cfg, &d, note)
    }
}

fn main() {
    vh::main(&C24)
}

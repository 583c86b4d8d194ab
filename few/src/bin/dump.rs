//! Inputs for given configurations, as lines for the generated programs of C29.
//! stdin: one JSON per line {v, ty, opts: [[k, v]], n, seed}; stdout: "<case> <kind> <value>" lines.
use std::io::{BufRead, Write};
use vh::*;

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

fn main() {
    let mut o = std::io::BufWriter::new(std::io::stdout().lock());
    for (ci, l) in std::io::stdin().lock().lines().enumerate() {
        let j: serde_json::Value = serde_json::from_str(&l.unwrap()).unwrap();
        let opts: Vec<(&'static str, &'static str)> = j["opts"].as_array().unwrap().iter().map(|p| (leak(p[0].as_str().unwrap()), leak(p[1].as_str().unwrap()))).collect();
        let c = Cfg { name: "", v: leak(j["v"].as_str().unwrap()), attr: "", opts: Box::leak(opts.into_boxed_slice()), ty: leak(j["ty"].as_str().unwrap()), run: |_| Out::Panic(String::new()) };
        let mut r = Rng::new(j["seed"].as_u64().unwrap(), 0);
        let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
        for _ in 0..j["n"].as_u64().unwrap() {
            match vf::byattr::input(&mut r, &c) {
                Input::Str(s) => writeln!(o, "{ci} S {}", hex(s.as_bytes())),
                Input::Bytes(b) => writeln!(o, "{ci} B {}", hex(&b)),
                Input::I(x) => writeln!(o, "{ci} I {x}"),
                Input::U(x) => writeln!(o, "{ci} U {x}"),
                Input::F64(x) => writeln!(o, "{ci} D {x}"),
                Input::F32(x) => writeln!(o, "{ci} F {x}"),
                _ => Ok(()),
            }
            .unwrap();
        }
    }
}

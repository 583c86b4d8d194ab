// generated by gen.py
#![allow(dead_code, unused_imports, clippy::all)]
use vh::*;
use validators::prelude::*;
use std::collections::*;
fn url_text(u: &validators::url::Url) -> String { format!("{u} {:?}", u.host()) }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(url)]
pub struct V0x(pub validators::url::Url);
fn run_0(i: &Input) -> Out { type Vx = V0x; let f: fn(&Vx) -> Fields = |v| vec![("url", url_text(&v.0)), ]; match i { Input::Str(s) => run_str::<Vx>(s, f), _ => bad_input() } }
pub static CFGS: &[Cfg] = &[
    Cfg { name: "url()", v: "url", attr: "", opts: &[("local", "Allow")], ty: "", run: run_0 },
];

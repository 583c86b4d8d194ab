// generated by gen.py
#![allow(dead_code, unused_imports, clippy::all)]
use vh::*;
use validators::prelude::*;
use std::collections::*;

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(boolean)]
pub struct V0x(pub bool);
fn run_0(i: &Input) -> Out { type Vx = V0x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::Char(c) => run_char::<Vx>(*c, f), Input::Bool(b) => run_bool::<Vx>(*b, f), Input::I(x) => run_signed::<Vx>(*x, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
pub static CFGS: &[Cfg] = &[
    Cfg { name: "boolean", v: "boolean", attr: "", opts: &[], ty: "bool", run: run_0 },
];

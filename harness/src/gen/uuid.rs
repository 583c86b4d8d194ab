// generated by gen.py
#![allow(dead_code, unused_imports, clippy::all)]
use vh::*;
use validators::prelude::*;
use std::collections::*;

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid)]
pub struct V0x(pub u128);
fn run_0(i: &Input) -> Out { type Vx = V0x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V0x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(separator(Disallow)))]
pub struct V1x(pub u128);
fn run_1(i: &Input) -> Out { type Vx = V1x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V1x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(separator(Must(b':'))))]
pub struct V2x(pub u128);
fn run_2(i: &Input) -> Out { type Vx = V2x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V2x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(separator(Allow(b':'))))]
pub struct V3x(pub u128);
fn run_3(i: &Input) -> Out { type Vx = V3x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V3x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(separator(Must(b'-'))))]
pub struct V4x(pub u128);
fn run_4(i: &Input) -> Out { type Vx = V4x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V4x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(separator(Allow(b'-'))))]
pub struct V5x(pub u128);
fn run_5(i: &Input) -> Out { type Vx = V5x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V5x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(separator(Must(b' '))))]
pub struct V6x(pub u128);
fn run_6(i: &Input) -> Out { type Vx = V6x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V6x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(separator(Allow(b'_'))))]
pub struct V7x(pub u128);
fn run_7(i: &Input) -> Out { type Vx = V7x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V7x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(separator(Must(b'z'))))]
pub struct V8x(pub u128);
fn run_8(i: &Input) -> Out { type Vx = V8x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V8x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(separator(Allow(b'G'))))]
pub struct V9x(pub u128);
fn run_9(i: &Input) -> Out { type Vx = V9x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V9x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(separator(Allow(b'@'))))]
pub struct V10x(pub u128);
fn run_10(i: &Input) -> Out { type Vx = V10x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V10x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(separator(Must(b'.'))))]
pub struct V11x(pub u128);
fn run_11(i: &Input) -> Out { type Vx = V11x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V11x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Any)))]
pub struct V12x(pub u128);
fn run_12(i: &Input) -> Out { type Vx = V12x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V12x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Any), separator(Disallow)))]
pub struct V13x(pub u128);
fn run_13(i: &Input) -> Out { type Vx = V13x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V13x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Any), separator(Must(b':'))))]
pub struct V14x(pub u128);
fn run_14(i: &Input) -> Out { type Vx = V14x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V14x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Any), separator(Allow(b':'))))]
pub struct V15x(pub u128);
fn run_15(i: &Input) -> Out { type Vx = V15x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V15x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Any), separator(Must(b'-'))))]
pub struct V16x(pub u128);
fn run_16(i: &Input) -> Out { type Vx = V16x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V16x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Any), separator(Allow(b'-'))))]
pub struct V17x(pub u128);
fn run_17(i: &Input) -> Out { type Vx = V17x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V17x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Any), separator(Must(b' '))))]
pub struct V18x(pub u128);
fn run_18(i: &Input) -> Out { type Vx = V18x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V18x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Any), separator(Allow(b'_'))))]
pub struct V19x(pub u128);
fn run_19(i: &Input) -> Out { type Vx = V19x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V19x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Any), separator(Must(b'z'))))]
pub struct V20x(pub u128);
fn run_20(i: &Input) -> Out { type Vx = V20x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V20x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Any), separator(Allow(b'G'))))]
pub struct V21x(pub u128);
fn run_21(i: &Input) -> Out { type Vx = V21x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V21x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Any), separator(Allow(b'@'))))]
pub struct V22x(pub u128);
fn run_22(i: &Input) -> Out { type Vx = V22x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V22x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Any), separator(Must(b'.'))))]
pub struct V23x(pub u128);
fn run_23(i: &Input) -> Out { type Vx = V23x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V23x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Upper)))]
pub struct V24x(pub u128);
fn run_24(i: &Input) -> Out { type Vx = V24x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V24x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Upper), separator(Disallow)))]
pub struct V25x(pub u128);
fn run_25(i: &Input) -> Out { type Vx = V25x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V25x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Upper), separator(Must(b':'))))]
pub struct V26x(pub u128);
fn run_26(i: &Input) -> Out { type Vx = V26x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V26x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Upper), separator(Allow(b':'))))]
pub struct V27x(pub u128);
fn run_27(i: &Input) -> Out { type Vx = V27x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V27x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Upper), separator(Must(b'-'))))]
pub struct V28x(pub u128);
fn run_28(i: &Input) -> Out { type Vx = V28x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V28x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Upper), separator(Allow(b'-'))))]
pub struct V29x(pub u128);
fn run_29(i: &Input) -> Out { type Vx = V29x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V29x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Upper), separator(Must(b' '))))]
pub struct V30x(pub u128);
fn run_30(i: &Input) -> Out { type Vx = V30x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V30x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Upper), separator(Allow(b'_'))))]
pub struct V31x(pub u128);
fn run_31(i: &Input) -> Out { type Vx = V31x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V31x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Upper), separator(Must(b'z'))))]
pub struct V32x(pub u128);
fn run_32(i: &Input) -> Out { type Vx = V32x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V32x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Upper), separator(Allow(b'G'))))]
pub struct V33x(pub u128);
fn run_33(i: &Input) -> Out { type Vx = V33x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V33x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Upper), separator(Allow(b'@'))))]
pub struct V34x(pub u128);
fn run_34(i: &Input) -> Out { type Vx = V34x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V34x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Upper), separator(Must(b'.'))))]
pub struct V35x(pub u128);
fn run_35(i: &Input) -> Out { type Vx = V35x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V35x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Lower)))]
pub struct V36x(pub u128);
fn run_36(i: &Input) -> Out { type Vx = V36x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V36x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Lower), separator(Disallow)))]
pub struct V37x(pub u128);
fn run_37(i: &Input) -> Out { type Vx = V37x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V37x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Lower), separator(Must(b':'))))]
pub struct V38x(pub u128);
fn run_38(i: &Input) -> Out { type Vx = V38x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V38x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Lower), separator(Allow(b':'))))]
pub struct V39x(pub u128);
fn run_39(i: &Input) -> Out { type Vx = V39x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V39x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Lower), separator(Must(b'-'))))]
pub struct V40x(pub u128);
fn run_40(i: &Input) -> Out { type Vx = V40x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V40x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Lower), separator(Allow(b'-'))))]
pub struct V41x(pub u128);
fn run_41(i: &Input) -> Out { type Vx = V41x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V41x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Lower), separator(Must(b' '))))]
pub struct V42x(pub u128);
fn run_42(i: &Input) -> Out { type Vx = V42x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V42x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Lower), separator(Allow(b'_'))))]
pub struct V43x(pub u128);
fn run_43(i: &Input) -> Out { type Vx = V43x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V43x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Lower), separator(Must(b'z'))))]
pub struct V44x(pub u128);
fn run_44(i: &Input) -> Out { type Vx = V44x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V44x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Lower), separator(Allow(b'G'))))]
pub struct V45x(pub u128);
fn run_45(i: &Input) -> Out { type Vx = V45x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V45x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Lower), separator(Allow(b'@'))))]
pub struct V46x(pub u128);
fn run_46(i: &Input) -> Out { type Vx = V46x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V46x(*x as u128))), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(uuid(case(Lower), separator(Must(b'.'))))]
pub struct V47x(pub u128);
fn run_47(i: &Input) -> Out { type Vx = V47x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string()), ("print", v.to_uuid_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => Out::Ok(f(&V47x(*x as u128))), _ => bad_input() } }
pub static CFGS: &[Cfg] = &[
    Cfg { name: "uuid()", v: "uuid", attr: "", opts: &[("case", "Any"), ("separator", "Allow"), ("sepbyte", "45")], ty: "u128", run: run_0 },
    Cfg { name: "uuid(separator(Disallow))", v: "uuid", attr: "separator(Disallow)", opts: &[("case", "Any"), ("separator", "Disallow"), ("sepbyte", "")], ty: "u128", run: run_1 },
    Cfg { name: "uuid(separator(Must(b':')))", v: "uuid", attr: "separator(Must(b':'))", opts: &[("case", "Any"), ("separator", "Must"), ("sepbyte", "58")], ty: "u128", run: run_2 },
    Cfg { name: "uuid(separator(Allow(b':')))", v: "uuid", attr: "separator(Allow(b':'))", opts: &[("case", "Any"), ("separator", "Allow"), ("sepbyte", "58")], ty: "u128", run: run_3 },
    Cfg { name: "uuid(separator(Must(b'-')))", v: "uuid", attr: "separator(Must(b'-'))", opts: &[("case", "Any"), ("separator", "Must"), ("sepbyte", "45")], ty: "u128", run: run_4 },
    Cfg { name: "uuid(separator(Allow(b'-')))", v: "uuid", attr: "separator(Allow(b'-'))", opts: &[("case", "Any"), ("separator", "Allow"), ("sepbyte", "45")], ty: "u128", run: run_5 },
    Cfg { name: "uuid(separator(Must(b' ')))", v: "uuid", attr: "separator(Must(b' '))", opts: &[("case", "Any"), ("separator", "Must"), ("sepbyte", "32")], ty: "u128", run: run_6 },
    Cfg { name: "uuid(separator(Allow(b'_')))", v: "uuid", attr: "separator(Allow(b'_'))", opts: &[("case", "Any"), ("separator", "Allow"), ("sepbyte", "95")], ty: "u128", run: run_7 },
    Cfg { name: "uuid(separator(Must(b'z')))", v: "uuid", attr: "separator(Must(b'z'))", opts: &[("case", "Any"), ("separator", "Must"), ("sepbyte", "122")], ty: "u128", run: run_8 },
    Cfg { name: "uuid(separator(Allow(b'G')))", v: "uuid", attr: "separator(Allow(b'G'))", opts: &[("case", "Any"), ("separator", "Allow"), ("sepbyte", "71")], ty: "u128", run: run_9 },
    Cfg { name: "uuid(separator(Allow(b'@')))", v: "uuid", attr: "separator(Allow(b'@'))", opts: &[("case", "Any"), ("separator", "Allow"), ("sepbyte", "64")], ty: "u128", run: run_10 },
    Cfg { name: "uuid(separator(Must(b'.')))", v: "uuid", attr: "separator(Must(b'.'))", opts: &[("case", "Any"), ("separator", "Must"), ("sepbyte", "46")], ty: "u128", run: run_11 },
    Cfg { name: "uuid(case(Any))", v: "uuid", attr: "case(Any)", opts: &[("case", "Any"), ("separator", "Allow"), ("sepbyte", "45")], ty: "u128", run: run_12 },
    Cfg { name: "uuid(case(Any), separator(Disallow))", v: "uuid", attr: "case(Any), separator(Disallow)", opts: &[("case", "Any"), ("separator", "Disallow"), ("sepbyte", "")], ty: "u128", run: run_13 },
    Cfg { name: "uuid(case(Any), separator(Must(b':')))", v: "uuid", attr: "case(Any), separator(Must(b':'))", opts: &[("case", "Any"), ("separator", "Must"), ("sepbyte", "58")], ty: "u128", run: run_14 },
    Cfg { name: "uuid(case(Any), separator(Allow(b':')))", v: "uuid", attr: "case(Any), separator(Allow(b':'))", opts: &[("case", "Any"), ("separator", "Allow"), ("sepbyte", "58")], ty: "u128", run: run_15 },
    Cfg { name: "uuid(case(Any), separator(Must(b'-')))", v: "uuid", attr: "case(Any), separator(Must(b'-'))", opts: &[("case", "Any"), ("separator", "Must"), ("sepbyte", "45")], ty: "u128", run: run_16 },
    Cfg { name: "uuid(case(Any), separator(Allow(b'-')))", v: "uuid", attr: "case(Any), separator(Allow(b'-'))", opts: &[("case", "Any"), ("separator", "Allow"), ("sepbyte", "45")], ty: "u128", run: run_17 },
    Cfg { name: "uuid(case(Any), separator(Must(b' ')))", v: "uuid", attr: "case(Any), separator(Must(b' '))", opts: &[("case", "Any"), ("separator", "Must"), ("sepbyte", "32")], ty: "u128", run: run_18 },
    Cfg { name: "uuid(case(Any), separator(Allow(b'_')))", v: "uuid", attr: "case(Any), separator(Allow(b'_'))", opts: &[("case", "Any"), ("separator", "Allow"), ("sepbyte", "95")], ty: "u128", run: run_19 },
    Cfg { name: "uuid(case(Any), separator(Must(b'z')))", v: "uuid", attr: "case(Any), separator(Must(b'z'))", opts: &[("case", "Any"), ("separator", "Must"), ("sepbyte", "122")], ty: "u128", run: run_20 },
    Cfg { name: "uuid(case(Any), separator(Allow(b'G')))", v: "uuid", attr: "case(Any), separator(Allow(b'G'))", opts: &[("case", "Any"), ("separator", "Allow"), ("sepbyte", "71")], ty: "u128", run: run_21 },
    Cfg { name: "uuid(case(Any), separator(Allow(b'@')))", v: "uuid", attr: "case(Any), separator(Allow(b'@'))", opts: &[("case", "Any"), ("separator", "Allow"), ("sepbyte", "64")], ty: "u128", run: run_22 },
    Cfg { name: "uuid(case(Any), separator(Must(b'.')))", v: "uuid", attr: "case(Any), separator(Must(b'.'))", opts: &[("case", "Any"), ("separator", "Must"), ("sepbyte", "46")], ty: "u128", run: run_23 },
    Cfg { name: "uuid(case(Upper))", v: "uuid", attr: "case(Upper)", opts: &[("case", "Upper"), ("separator", "Allow"), ("sepbyte", "45")], ty: "u128", run: run_24 },
    Cfg { name: "uuid(case(Upper), separator(Disallow))", v: "uuid", attr: "case(Upper), separator(Disallow)", opts: &[("case", "Upper"), ("separator", "Disallow"), ("sepbyte", "")], ty: "u128", run: run_25 },
    Cfg { name: "uuid(case(Upper), separator(Must(b':')))", v: "uuid", attr: "case(Upper), separator(Must(b':'))", opts: &[("case", "Upper"), ("separator", "Must"), ("sepbyte", "58")], ty: "u128", run: run_26 },
    Cfg { name: "uuid(case(Upper), separator(Allow(b':')))", v: "uuid", attr: "case(Upper), separator(Allow(b':'))", opts: &[("case", "Upper"), ("separator", "Allow"), ("sepbyte", "58")], ty: "u128", run: run_27 },
    Cfg { name: "uuid(case(Upper), separator(Must(b'-')))", v: "uuid", attr: "case(Upper), separator(Must(b'-'))", opts: &[("case", "Upper"), ("separator", "Must"), ("sepbyte", "45")], ty: "u128", run: run_28 },
    Cfg { name: "uuid(case(Upper), separator(Allow(b'-')))", v: "uuid", attr: "case(Upper), separator(Allow(b'-'))", opts: &[("case", "Upper"), ("separator", "Allow"), ("sepbyte", "45")], ty: "u128", run: run_29 },
    Cfg { name: "uuid(case(Upper), separator(Must(b' ')))", v: "uuid", attr: "case(Upper), separator(Must(b' '))", opts: &[("case", "Upper"), ("separator", "Must"), ("sepbyte", "32")], ty: "u128", run: run_30 },
    Cfg { name: "uuid(case(Upper), separator(Allow(b'_')))", v: "uuid", attr: "case(Upper), separator(Allow(b'_'))", opts: &[("case", "Upper"), ("separator", "Allow"), ("sepbyte", "95")], ty: "u128", run: run_31 },
    Cfg { name: "uuid(case(Upper), separator(Must(b'z')))", v: "uuid", attr: "case(Upper), separator(Must(b'z'))", opts: &[("case", "Upper"), ("separator", "Must"), ("sepbyte", "122")], ty: "u128", run: run_32 },
    Cfg { name: "uuid(case(Upper), separator(Allow(b'G')))", v: "uuid", attr: "case(Upper), separator(Allow(b'G'))", opts: &[("case", "Upper"), ("separator", "Allow"), ("sepbyte", "71")], ty: "u128", run: run_33 },
    Cfg { name: "uuid(case(Upper), separator(Allow(b'@')))", v: "uuid", attr: "case(Upper), separator(Allow(b'@'))", opts: &[("case", "Upper"), ("separator", "Allow"), ("sepbyte", "64")], ty: "u128", run: run_34 },
    Cfg { name: "uuid(case(Upper), separator(Must(b'.')))", v: "uuid", attr: "case(Upper), separator(Must(b'.'))", opts: &[("case", "Upper"), ("separator", "Must"), ("sepbyte", "46")], ty: "u128", run: run_35 },
    Cfg { name: "uuid(case(Lower))", v: "uuid", attr: "case(Lower)", opts: &[("case", "Lower"), ("separator", "Allow"), ("sepbyte", "45")], ty: "u128", run: run_36 },
    Cfg { name: "uuid(case(Lower), separator(Disallow))", v: "uuid", attr: "case(Lower), separator(Disallow)", opts: &[("case", "Lower"), ("separator", "Disallow"), ("sepbyte", "")], ty: "u128", run: run_37 },
    Cfg { name: "uuid(case(Lower), separator(Must(b':')))", v: "uuid", attr: "case(Lower), separator(Must(b':'))", opts: &[("case", "Lower"), ("separator", "Must"), ("sepbyte", "58")], ty: "u128", run: run_38 },
    Cfg { name: "uuid(case(Lower), separator(Allow(b':')))", v: "uuid", attr: "case(Lower), separator(Allow(b':'))", opts: &[("case", "Lower"), ("separator", "Allow"), ("sepbyte", "58")], ty: "u128", run: run_39 },
    Cfg { name: "uuid(case(Lower), separator(Must(b'-')))", v: "uuid", attr: "case(Lower), separator(Must(b'-'))", opts: &[("case", "Lower"), ("separator", "Must"), ("sepbyte", "45")], ty: "u128", run: run_40 },
    Cfg { name: "uuid(case(Lower), separator(Allow(b'-')))", v: "uuid", attr: "case(Lower), separator(Allow(b'-'))", opts: &[("case", "Lower"), ("separator", "Allow"), ("sepbyte", "45")], ty: "u128", run: run_41 },
    Cfg { name: "uuid(case(Lower), separator(Must(b' ')))", v: "uuid", attr: "case(Lower), separator(Must(b' '))", opts: &[("case", "Lower"), ("separator", "Must"), ("sepbyte", "32")], ty: "u128", run: run_42 },
    Cfg { name: "uuid(case(Lower), separator(Allow(b'_')))", v: "uuid", attr: "case(Lower), separator(Allow(b'_'))", opts: &[("case", "Lower"), ("separator", "Allow"), ("sepbyte", "95")], ty: "u128", run: run_43 },
    Cfg { name: "uuid(case(Lower), separator(Must(b'z')))", v: "uuid", attr: "case(Lower), separator(Must(b'z'))", opts: &[("case", "Lower"), ("separator", "Must"), ("sepbyte", "122")], ty: "u128", run: run_44 },
    Cfg { name: "uuid(case(Lower), separator(Allow(b'G')))", v: "uuid", attr: "case(Lower), separator(Allow(b'G'))", opts: &[("case", "Lower"), ("separator", "Allow"), ("sepbyte", "71")], ty: "u128", run: run_45 },
    Cfg { name: "uuid(case(Lower), separator(Allow(b'@')))", v: "uuid", attr: "case(Lower), separator(Allow(b'@'))", opts: &[("case", "Lower"), ("separator", "Allow"), ("sepbyte", "64")], ty: "u128", run: run_46 },
    Cfg { name: "uuid(case(Lower), separator(Must(b'.')))", v: "uuid", attr: "case(Lower), separator(Must(b'.'))", opts: &[("case", "Lower"), ("separator", "Must"), ("sepbyte", "46")], ty: "u128", run: run_47 },
];

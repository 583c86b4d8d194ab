// generated by gen.py
#![allow(dead_code, unused_imports, clippy::all)]
use vh::*;
use validators::prelude::*;
use std::collections::*;

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer)]
pub struct V0x(pub i8);
fn run_0(i: &Input) -> Out { type Vx = V0x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Unlimited)))]
pub struct V1x(pub i8);
fn run_1(i: &Input) -> Out { type Vx = V1x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside())))]
pub struct V2x(pub i8);
fn run_2(i: &Input) -> Out { type Vx = V2x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside())))]
pub struct V3x(pub i8);
fn run_3(i: &Input) -> Out { type Vx = V3x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7))))]
pub struct V4x(pub i8);
fn run_4(i: &Input) -> Out { type Vx = V4x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, inclusive = false))))]
pub struct V5x(pub i8);
fn run_5(i: &Input) -> Out { type Vx = V5x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = 100))))]
pub struct V6x(pub i8);
fn run_6(i: &Input) -> Out { type Vx = V6x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = 100, inclusive = false))))]
pub struct V7x(pub i8);
fn run_7(i: &Input) -> Out { type Vx = V7x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 100))))]
pub struct V8x(pub i8);
fn run_8(i: &Input) -> Out { type Vx = V8x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 100, inclusive = true))))]
pub struct V9x(pub i8);
fn run_9(i: &Input) -> Out { type Vx = V9x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 100, inclusive = false))))]
pub struct V10x(pub i8);
fn run_10(i: &Input) -> Out { type Vx = V10x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 42, max = 42))))]
pub struct V11x(pub i8);
fn run_11(i: &Input) -> Out { type Vx = V11x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 42, max = 43, inclusive = false))))]
pub struct V12x(pub i8);
fn run_12(i: &Input) -> Out { type Vx = V12x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7))))]
pub struct V13x(pub i8);
fn run_13(i: &Input) -> Out { type Vx = V13x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, inclusive = false))))]
pub struct V14x(pub i8);
fn run_14(i: &Input) -> Out { type Vx = V14x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 100))))]
pub struct V15x(pub i8);
fn run_15(i: &Input) -> Out { type Vx = V15x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 100, inclusive = false))))]
pub struct V16x(pub i8);
fn run_16(i: &Input) -> Out { type Vx = V16x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 100))))]
pub struct V17x(pub i8);
fn run_17(i: &Input) -> Out { type Vx = V17x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 100, inclusive = true))))]
pub struct V18x(pub i8);
fn run_18(i: &Input) -> Out { type Vx = V18x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 100, inclusive = false))))]
pub struct V19x(pub i8);
fn run_19(i: &Input) -> Out { type Vx = V19x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 42, max = 42))))]
pub struct V20x(pub i8);
fn run_20(i: &Input) -> Out { type Vx = V20x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 42, max = 43, inclusive = false))))]
pub struct V21x(pub i8);
fn run_21(i: &Input) -> Out { type Vx = V21x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -128, max = -126))))]
pub struct V22x(pub i8);
fn run_22(i: &Input) -> Out { type Vx = V22x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 125, max = 127))))]
pub struct V23x(pub i8);
fn run_23(i: &Input) -> Out { type Vx = V23x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 124, max = 127, inclusive = false))))]
pub struct V24x(pub i8);
fn run_24(i: &Input) -> Out { type Vx = V24x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -128, max = 127))))]
pub struct V25x(pub i8);
fn run_25(i: &Input) -> Out { type Vx = V25x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 127))))]
pub struct V26x(pub i8);
fn run_26(i: &Input) -> Out { type Vx = V26x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = -128))))]
pub struct V27x(pub i8);
fn run_27(i: &Input) -> Out { type Vx = V27x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 127, max = 127))))]
pub struct V28x(pub i8);
fn run_28(i: &Input) -> Out { type Vx = V28x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..=77))))]
pub struct V29x(pub i8);
fn run_29(i: &Input) -> Out { type Vx = V29x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..77))))]
pub struct V30x(pub i8);
fn run_30(i: &Input) -> Out { type Vx = V30x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(..=77))))]
pub struct V31x(pub i8);
fn run_31(i: &Input) -> Out { type Vx = V31x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(..77))))]
pub struct V32x(pub i8);
fn run_32(i: &Input) -> Out { type Vx = V32x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..))))]
pub struct V33x(pub i8);
fn run_33(i: &Input) -> Out { type Vx = V33x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -128, max = -126))))]
pub struct V34x(pub i8);
fn run_34(i: &Input) -> Out { type Vx = V34x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 125, max = 127))))]
pub struct V35x(pub i8);
fn run_35(i: &Input) -> Out { type Vx = V35x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 124, max = 127, inclusive = false))))]
pub struct V36x(pub i8);
fn run_36(i: &Input) -> Out { type Vx = V36x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -128, max = 127))))]
pub struct V37x(pub i8);
fn run_37(i: &Input) -> Out { type Vx = V37x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 127))))]
pub struct V38x(pub i8);
fn run_38(i: &Input) -> Out { type Vx = V38x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -128))))]
pub struct V39x(pub i8);
fn run_39(i: &Input) -> Out { type Vx = V39x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 127, max = 127))))]
pub struct V40x(pub i8);
fn run_40(i: &Input) -> Out { type Vx = V40x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..=77))))]
pub struct V41x(pub i8);
fn run_41(i: &Input) -> Out { type Vx = V41x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..77))))]
pub struct V42x(pub i8);
fn run_42(i: &Input) -> Out { type Vx = V42x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(..=77))))]
pub struct V43x(pub i8);
fn run_43(i: &Input) -> Out { type Vx = V43x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(..77))))]
pub struct V44x(pub i8);
fn run_44(i: &Input) -> Out { type Vx = V44x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..))))]
pub struct V45x(pub i8);
fn run_45(i: &Input) -> Out { type Vx = V45x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -100, max = -50))))]
pub struct V46x(pub i8);
fn run_46(i: &Input) -> Out { type Vx = V46x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -100, max = -50, inclusive = false))))]
pub struct V47x(pub i8);
fn run_47(i: &Input) -> Out { type Vx = V47x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 0, max = 0))))]
pub struct V48x(pub i8);
fn run_48(i: &Input) -> Out { type Vx = V48x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer)]
pub struct V49x(pub i16);
fn run_49(i: &Input) -> Out { type Vx = V49x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Unlimited)))]
pub struct V50x(pub i16);
fn run_50(i: &Input) -> Out { type Vx = V50x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside())))]
pub struct V51x(pub i16);
fn run_51(i: &Input) -> Out { type Vx = V51x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside())))]
pub struct V52x(pub i16);
fn run_52(i: &Input) -> Out { type Vx = V52x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7))))]
pub struct V53x(pub i16);
fn run_53(i: &Input) -> Out { type Vx = V53x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, inclusive = false))))]
pub struct V54x(pub i16);
fn run_54(i: &Input) -> Out { type Vx = V54x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = 100))))]
pub struct V55x(pub i16);
fn run_55(i: &Input) -> Out { type Vx = V55x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = 100, inclusive = false))))]
pub struct V56x(pub i16);
fn run_56(i: &Input) -> Out { type Vx = V56x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 100))))]
pub struct V57x(pub i16);
fn run_57(i: &Input) -> Out { type Vx = V57x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 100, inclusive = true))))]
pub struct V58x(pub i16);
fn run_58(i: &Input) -> Out { type Vx = V58x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 100, inclusive = false))))]
pub struct V59x(pub i16);
fn run_59(i: &Input) -> Out { type Vx = V59x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 42, max = 42))))]
pub struct V60x(pub i16);
fn run_60(i: &Input) -> Out { type Vx = V60x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 42, max = 43, inclusive = false))))]
pub struct V61x(pub i16);
fn run_61(i: &Input) -> Out { type Vx = V61x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7))))]
pub struct V62x(pub i16);
fn run_62(i: &Input) -> Out { type Vx = V62x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, inclusive = false))))]
pub struct V63x(pub i16);
fn run_63(i: &Input) -> Out { type Vx = V63x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 100))))]
pub struct V64x(pub i16);
fn run_64(i: &Input) -> Out { type Vx = V64x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 100, inclusive = false))))]
pub struct V65x(pub i16);
fn run_65(i: &Input) -> Out { type Vx = V65x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 100))))]
pub struct V66x(pub i16);
fn run_66(i: &Input) -> Out { type Vx = V66x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 100, inclusive = true))))]
pub struct V67x(pub i16);
fn run_67(i: &Input) -> Out { type Vx = V67x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 100, inclusive = false))))]
pub struct V68x(pub i16);
fn run_68(i: &Input) -> Out { type Vx = V68x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 42, max = 42))))]
pub struct V69x(pub i16);
fn run_69(i: &Input) -> Out { type Vx = V69x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 42, max = 43, inclusive = false))))]
pub struct V70x(pub i16);
fn run_70(i: &Input) -> Out { type Vx = V70x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -32768, max = -32766))))]
pub struct V71x(pub i16);
fn run_71(i: &Input) -> Out { type Vx = V71x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 32765, max = 32767))))]
pub struct V72x(pub i16);
fn run_72(i: &Input) -> Out { type Vx = V72x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 32764, max = 32767, inclusive = false))))]
pub struct V73x(pub i16);
fn run_73(i: &Input) -> Out { type Vx = V73x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -32768, max = 32767))))]
pub struct V74x(pub i16);
fn run_74(i: &Input) -> Out { type Vx = V74x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 32767))))]
pub struct V75x(pub i16);
fn run_75(i: &Input) -> Out { type Vx = V75x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = -32768))))]
pub struct V76x(pub i16);
fn run_76(i: &Input) -> Out { type Vx = V76x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 32767, max = 32767))))]
pub struct V77x(pub i16);
fn run_77(i: &Input) -> Out { type Vx = V77x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..=77))))]
pub struct V78x(pub i16);
fn run_78(i: &Input) -> Out { type Vx = V78x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..77))))]
pub struct V79x(pub i16);
fn run_79(i: &Input) -> Out { type Vx = V79x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(..=77))))]
pub struct V80x(pub i16);
fn run_80(i: &Input) -> Out { type Vx = V80x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(..77))))]
pub struct V81x(pub i16);
fn run_81(i: &Input) -> Out { type Vx = V81x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..))))]
pub struct V82x(pub i16);
fn run_82(i: &Input) -> Out { type Vx = V82x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -32768, max = -32766))))]
pub struct V83x(pub i16);
fn run_83(i: &Input) -> Out { type Vx = V83x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 32765, max = 32767))))]
pub struct V84x(pub i16);
fn run_84(i: &Input) -> Out { type Vx = V84x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 32764, max = 32767, inclusive = false))))]
pub struct V85x(pub i16);
fn run_85(i: &Input) -> Out { type Vx = V85x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -32768, max = 32767))))]
pub struct V86x(pub i16);
fn run_86(i: &Input) -> Out { type Vx = V86x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 32767))))]
pub struct V87x(pub i16);
fn run_87(i: &Input) -> Out { type Vx = V87x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -32768))))]
pub struct V88x(pub i16);
fn run_88(i: &Input) -> Out { type Vx = V88x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 32767, max = 32767))))]
pub struct V89x(pub i16);
fn run_89(i: &Input) -> Out { type Vx = V89x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..=77))))]
pub struct V90x(pub i16);
fn run_90(i: &Input) -> Out { type Vx = V90x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..77))))]
pub struct V91x(pub i16);
fn run_91(i: &Input) -> Out { type Vx = V91x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(..=77))))]
pub struct V92x(pub i16);
fn run_92(i: &Input) -> Out { type Vx = V92x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(..77))))]
pub struct V93x(pub i16);
fn run_93(i: &Input) -> Out { type Vx = V93x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..))))]
pub struct V94x(pub i16);
fn run_94(i: &Input) -> Out { type Vx = V94x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -100, max = -50))))]
pub struct V95x(pub i16);
fn run_95(i: &Input) -> Out { type Vx = V95x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -100, max = -50, inclusive = false))))]
pub struct V96x(pub i16);
fn run_96(i: &Input) -> Out { type Vx = V96x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 0, max = 0))))]
pub struct V97x(pub i16);
fn run_97(i: &Input) -> Out { type Vx = V97x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer)]
pub struct V98x(pub i32);
fn run_98(i: &Input) -> Out { type Vx = V98x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Unlimited)))]
pub struct V99x(pub i32);
fn run_99(i: &Input) -> Out { type Vx = V99x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside())))]
pub struct V100x(pub i32);
fn run_100(i: &Input) -> Out { type Vx = V100x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside())))]
pub struct V101x(pub i32);
fn run_101(i: &Input) -> Out { type Vx = V101x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7))))]
pub struct V102x(pub i32);
fn run_102(i: &Input) -> Out { type Vx = V102x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, inclusive = false))))]
pub struct V103x(pub i32);
fn run_103(i: &Input) -> Out { type Vx = V103x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = 100))))]
pub struct V104x(pub i32);
fn run_104(i: &Input) -> Out { type Vx = V104x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = 100, inclusive = false))))]
pub struct V105x(pub i32);
fn run_105(i: &Input) -> Out { type Vx = V105x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 100))))]
pub struct V106x(pub i32);
fn run_106(i: &Input) -> Out { type Vx = V106x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 100, inclusive = true))))]
pub struct V107x(pub i32);
fn run_107(i: &Input) -> Out { type Vx = V107x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 100, inclusive = false))))]
pub struct V108x(pub i32);
fn run_108(i: &Input) -> Out { type Vx = V108x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 42, max = 42))))]
pub struct V109x(pub i32);
fn run_109(i: &Input) -> Out { type Vx = V109x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 42, max = 43, inclusive = false))))]
pub struct V110x(pub i32);
fn run_110(i: &Input) -> Out { type Vx = V110x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7))))]
pub struct V111x(pub i32);
fn run_111(i: &Input) -> Out { type Vx = V111x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, inclusive = false))))]
pub struct V112x(pub i32);
fn run_112(i: &Input) -> Out { type Vx = V112x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 100))))]
pub struct V113x(pub i32);
fn run_113(i: &Input) -> Out { type Vx = V113x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 100, inclusive = false))))]
pub struct V114x(pub i32);
fn run_114(i: &Input) -> Out { type Vx = V114x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 100))))]
pub struct V115x(pub i32);
fn run_115(i: &Input) -> Out { type Vx = V115x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 100, inclusive = true))))]
pub struct V116x(pub i32);
fn run_116(i: &Input) -> Out { type Vx = V116x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 100, inclusive = false))))]
pub struct V117x(pub i32);
fn run_117(i: &Input) -> Out { type Vx = V117x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 42, max = 42))))]
pub struct V118x(pub i32);
fn run_118(i: &Input) -> Out { type Vx = V118x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 42, max = 43, inclusive = false))))]
pub struct V119x(pub i32);
fn run_119(i: &Input) -> Out { type Vx = V119x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -2147483648, max = -2147483646))))]
pub struct V120x(pub i32);
fn run_120(i: &Input) -> Out { type Vx = V120x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 2147483645, max = 2147483647))))]
pub struct V121x(pub i32);
fn run_121(i: &Input) -> Out { type Vx = V121x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 2147483644, max = 2147483647, inclusive = false))))]
pub struct V122x(pub i32);
fn run_122(i: &Input) -> Out { type Vx = V122x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -2147483648, max = 2147483647))))]
pub struct V123x(pub i32);
fn run_123(i: &Input) -> Out { type Vx = V123x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 2147483647))))]
pub struct V124x(pub i32);
fn run_124(i: &Input) -> Out { type Vx = V124x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = -2147483648))))]
pub struct V125x(pub i32);
fn run_125(i: &Input) -> Out { type Vx = V125x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 2147483647, max = 2147483647))))]
pub struct V126x(pub i32);
fn run_126(i: &Input) -> Out { type Vx = V126x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..=77))))]
pub struct V127x(pub i32);
fn run_127(i: &Input) -> Out { type Vx = V127x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..77))))]
pub struct V128x(pub i32);
fn run_128(i: &Input) -> Out { type Vx = V128x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(..=77))))]
pub struct V129x(pub i32);
fn run_129(i: &Input) -> Out { type Vx = V129x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(..77))))]
pub struct V130x(pub i32);
fn run_130(i: &Input) -> Out { type Vx = V130x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..))))]
pub struct V131x(pub i32);
fn run_131(i: &Input) -> Out { type Vx = V131x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -2147483648, max = -2147483646))))]
pub struct V132x(pub i32);
fn run_132(i: &Input) -> Out { type Vx = V132x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 2147483645, max = 2147483647))))]
pub struct V133x(pub i32);
fn run_133(i: &Input) -> Out { type Vx = V133x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 2147483644, max = 2147483647, inclusive = false))))]
pub struct V134x(pub i32);
fn run_134(i: &Input) -> Out { type Vx = V134x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -2147483648, max = 2147483647))))]
pub struct V135x(pub i32);
fn run_135(i: &Input) -> Out { type Vx = V135x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 2147483647))))]
pub struct V136x(pub i32);
fn run_136(i: &Input) -> Out { type Vx = V136x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -2147483648))))]
pub struct V137x(pub i32);
fn run_137(i: &Input) -> Out { type Vx = V137x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 2147483647, max = 2147483647))))]
pub struct V138x(pub i32);
fn run_138(i: &Input) -> Out { type Vx = V138x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..=77))))]
pub struct V139x(pub i32);
fn run_139(i: &Input) -> Out { type Vx = V139x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..77))))]
pub struct V140x(pub i32);
fn run_140(i: &Input) -> Out { type Vx = V140x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(..=77))))]
pub struct V141x(pub i32);
fn run_141(i: &Input) -> Out { type Vx = V141x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(..77))))]
pub struct V142x(pub i32);
fn run_142(i: &Input) -> Out { type Vx = V142x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..))))]
pub struct V143x(pub i32);
fn run_143(i: &Input) -> Out { type Vx = V143x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -100, max = -50))))]
pub struct V144x(pub i32);
fn run_144(i: &Input) -> Out { type Vx = V144x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -100, max = -50, inclusive = false))))]
pub struct V145x(pub i32);
fn run_145(i: &Input) -> Out { type Vx = V145x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 0, max = 0))))]
pub struct V146x(pub i32);
fn run_146(i: &Input) -> Out { type Vx = V146x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer)]
pub struct V147x(pub i64);
fn run_147(i: &Input) -> Out { type Vx = V147x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Unlimited)))]
pub struct V148x(pub i64);
fn run_148(i: &Input) -> Out { type Vx = V148x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside())))]
pub struct V149x(pub i64);
fn run_149(i: &Input) -> Out { type Vx = V149x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside())))]
pub struct V150x(pub i64);
fn run_150(i: &Input) -> Out { type Vx = V150x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7))))]
pub struct V151x(pub i64);
fn run_151(i: &Input) -> Out { type Vx = V151x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, inclusive = false))))]
pub struct V152x(pub i64);
fn run_152(i: &Input) -> Out { type Vx = V152x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = 100))))]
pub struct V153x(pub i64);
fn run_153(i: &Input) -> Out { type Vx = V153x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = 100, inclusive = false))))]
pub struct V154x(pub i64);
fn run_154(i: &Input) -> Out { type Vx = V154x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 100))))]
pub struct V155x(pub i64);
fn run_155(i: &Input) -> Out { type Vx = V155x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 100, inclusive = true))))]
pub struct V156x(pub i64);
fn run_156(i: &Input) -> Out { type Vx = V156x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 100, inclusive = false))))]
pub struct V157x(pub i64);
fn run_157(i: &Input) -> Out { type Vx = V157x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 42, max = 42))))]
pub struct V158x(pub i64);
fn run_158(i: &Input) -> Out { type Vx = V158x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 42, max = 43, inclusive = false))))]
pub struct V159x(pub i64);
fn run_159(i: &Input) -> Out { type Vx = V159x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7))))]
pub struct V160x(pub i64);
fn run_160(i: &Input) -> Out { type Vx = V160x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, inclusive = false))))]
pub struct V161x(pub i64);
fn run_161(i: &Input) -> Out { type Vx = V161x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 100))))]
pub struct V162x(pub i64);
fn run_162(i: &Input) -> Out { type Vx = V162x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 100, inclusive = false))))]
pub struct V163x(pub i64);
fn run_163(i: &Input) -> Out { type Vx = V163x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 100))))]
pub struct V164x(pub i64);
fn run_164(i: &Input) -> Out { type Vx = V164x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 100, inclusive = true))))]
pub struct V165x(pub i64);
fn run_165(i: &Input) -> Out { type Vx = V165x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 100, inclusive = false))))]
pub struct V166x(pub i64);
fn run_166(i: &Input) -> Out { type Vx = V166x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 42, max = 42))))]
pub struct V167x(pub i64);
fn run_167(i: &Input) -> Out { type Vx = V167x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 42, max = 43, inclusive = false))))]
pub struct V168x(pub i64);
fn run_168(i: &Input) -> Out { type Vx = V168x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -9223372036854775808, max = -9223372036854775806))))]
pub struct V169x(pub i64);
fn run_169(i: &Input) -> Out { type Vx = V169x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 9223372036854775805, max = 9223372036854775807))))]
pub struct V170x(pub i64);
fn run_170(i: &Input) -> Out { type Vx = V170x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 9223372036854775804, max = 9223372036854775807, inclusive = false))))]
pub struct V171x(pub i64);
fn run_171(i: &Input) -> Out { type Vx = V171x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -9223372036854775808, max = 9223372036854775807))))]
pub struct V172x(pub i64);
fn run_172(i: &Input) -> Out { type Vx = V172x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 9223372036854775807))))]
pub struct V173x(pub i64);
fn run_173(i: &Input) -> Out { type Vx = V173x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = -9223372036854775808))))]
pub struct V174x(pub i64);
fn run_174(i: &Input) -> Out { type Vx = V174x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 9223372036854775807, max = 9223372036854775807))))]
pub struct V175x(pub i64);
fn run_175(i: &Input) -> Out { type Vx = V175x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..=77))))]
pub struct V176x(pub i64);
fn run_176(i: &Input) -> Out { type Vx = V176x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..77))))]
pub struct V177x(pub i64);
fn run_177(i: &Input) -> Out { type Vx = V177x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(..=77))))]
pub struct V178x(pub i64);
fn run_178(i: &Input) -> Out { type Vx = V178x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(..77))))]
pub struct V179x(pub i64);
fn run_179(i: &Input) -> Out { type Vx = V179x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..))))]
pub struct V180x(pub i64);
fn run_180(i: &Input) -> Out { type Vx = V180x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -9223372036854775808, max = -9223372036854775806))))]
pub struct V181x(pub i64);
fn run_181(i: &Input) -> Out { type Vx = V181x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 9223372036854775805, max = 9223372036854775807))))]
pub struct V182x(pub i64);
fn run_182(i: &Input) -> Out { type Vx = V182x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 9223372036854775804, max = 9223372036854775807, inclusive = false))))]
pub struct V183x(pub i64);
fn run_183(i: &Input) -> Out { type Vx = V183x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -9223372036854775808, max = 9223372036854775807))))]
pub struct V184x(pub i64);
fn run_184(i: &Input) -> Out { type Vx = V184x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 9223372036854775807))))]
pub struct V185x(pub i64);
fn run_185(i: &Input) -> Out { type Vx = V185x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -9223372036854775808))))]
pub struct V186x(pub i64);
fn run_186(i: &Input) -> Out { type Vx = V186x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 9223372036854775807, max = 9223372036854775807))))]
pub struct V187x(pub i64);
fn run_187(i: &Input) -> Out { type Vx = V187x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..=77))))]
pub struct V188x(pub i64);
fn run_188(i: &Input) -> Out { type Vx = V188x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..77))))]
pub struct V189x(pub i64);
fn run_189(i: &Input) -> Out { type Vx = V189x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(..=77))))]
pub struct V190x(pub i64);
fn run_190(i: &Input) -> Out { type Vx = V190x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(..77))))]
pub struct V191x(pub i64);
fn run_191(i: &Input) -> Out { type Vx = V191x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..))))]
pub struct V192x(pub i64);
fn run_192(i: &Input) -> Out { type Vx = V192x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -100, max = -50))))]
pub struct V193x(pub i64);
fn run_193(i: &Input) -> Out { type Vx = V193x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -100, max = -50, inclusive = false))))]
pub struct V194x(pub i64);
fn run_194(i: &Input) -> Out { type Vx = V194x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 0, max = 0))))]
pub struct V195x(pub i64);
fn run_195(i: &Input) -> Out { type Vx = V195x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer)]
pub struct V196x(pub i128);
fn run_196(i: &Input) -> Out { type Vx = V196x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Unlimited)))]
pub struct V197x(pub i128);
fn run_197(i: &Input) -> Out { type Vx = V197x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside())))]
pub struct V198x(pub i128);
fn run_198(i: &Input) -> Out { type Vx = V198x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside())))]
pub struct V199x(pub i128);
fn run_199(i: &Input) -> Out { type Vx = V199x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7))))]
pub struct V200x(pub i128);
fn run_200(i: &Input) -> Out { type Vx = V200x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, inclusive = false))))]
pub struct V201x(pub i128);
fn run_201(i: &Input) -> Out { type Vx = V201x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = 100))))]
pub struct V202x(pub i128);
fn run_202(i: &Input) -> Out { type Vx = V202x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = 100, inclusive = false))))]
pub struct V203x(pub i128);
fn run_203(i: &Input) -> Out { type Vx = V203x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 100))))]
pub struct V204x(pub i128);
fn run_204(i: &Input) -> Out { type Vx = V204x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 100, inclusive = true))))]
pub struct V205x(pub i128);
fn run_205(i: &Input) -> Out { type Vx = V205x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 100, inclusive = false))))]
pub struct V206x(pub i128);
fn run_206(i: &Input) -> Out { type Vx = V206x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 42, max = 42))))]
pub struct V207x(pub i128);
fn run_207(i: &Input) -> Out { type Vx = V207x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 42, max = 43, inclusive = false))))]
pub struct V208x(pub i128);
fn run_208(i: &Input) -> Out { type Vx = V208x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7))))]
pub struct V209x(pub i128);
fn run_209(i: &Input) -> Out { type Vx = V209x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, inclusive = false))))]
pub struct V210x(pub i128);
fn run_210(i: &Input) -> Out { type Vx = V210x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 100))))]
pub struct V211x(pub i128);
fn run_211(i: &Input) -> Out { type Vx = V211x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 100, inclusive = false))))]
pub struct V212x(pub i128);
fn run_212(i: &Input) -> Out { type Vx = V212x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 100))))]
pub struct V213x(pub i128);
fn run_213(i: &Input) -> Out { type Vx = V213x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 100, inclusive = true))))]
pub struct V214x(pub i128);
fn run_214(i: &Input) -> Out { type Vx = V214x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 100, inclusive = false))))]
pub struct V215x(pub i128);
fn run_215(i: &Input) -> Out { type Vx = V215x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 42, max = 42))))]
pub struct V216x(pub i128);
fn run_216(i: &Input) -> Out { type Vx = V216x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 42, max = 43, inclusive = false))))]
pub struct V217x(pub i128);
fn run_217(i: &Input) -> Out { type Vx = V217x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -170141183460469231731687303715884105728, max = -170141183460469231731687303715884105726))))]
pub struct V218x(pub i128);
fn run_218(i: &Input) -> Out { type Vx = V218x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 170141183460469231731687303715884105725, max = 170141183460469231731687303715884105727))))]
pub struct V219x(pub i128);
fn run_219(i: &Input) -> Out { type Vx = V219x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 170141183460469231731687303715884105724, max = 170141183460469231731687303715884105727, inclusive = false))))]
pub struct V220x(pub i128);
fn run_220(i: &Input) -> Out { type Vx = V220x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -170141183460469231731687303715884105728, max = 170141183460469231731687303715884105727))))]
pub struct V221x(pub i128);
fn run_221(i: &Input) -> Out { type Vx = V221x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 170141183460469231731687303715884105727))))]
pub struct V222x(pub i128);
fn run_222(i: &Input) -> Out { type Vx = V222x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = -170141183460469231731687303715884105728))))]
pub struct V223x(pub i128);
fn run_223(i: &Input) -> Out { type Vx = V223x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 170141183460469231731687303715884105727, max = 170141183460469231731687303715884105727))))]
pub struct V224x(pub i128);
fn run_224(i: &Input) -> Out { type Vx = V224x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..=77))))]
pub struct V225x(pub i128);
fn run_225(i: &Input) -> Out { type Vx = V225x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..77))))]
pub struct V226x(pub i128);
fn run_226(i: &Input) -> Out { type Vx = V226x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(..=77))))]
pub struct V227x(pub i128);
fn run_227(i: &Input) -> Out { type Vx = V227x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(..77))))]
pub struct V228x(pub i128);
fn run_228(i: &Input) -> Out { type Vx = V228x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..))))]
pub struct V229x(pub i128);
fn run_229(i: &Input) -> Out { type Vx = V229x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -170141183460469231731687303715884105728, max = -170141183460469231731687303715884105726))))]
pub struct V230x(pub i128);
fn run_230(i: &Input) -> Out { type Vx = V230x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 170141183460469231731687303715884105725, max = 170141183460469231731687303715884105727))))]
pub struct V231x(pub i128);
fn run_231(i: &Input) -> Out { type Vx = V231x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 170141183460469231731687303715884105724, max = 170141183460469231731687303715884105727, inclusive = false))))]
pub struct V232x(pub i128);
fn run_232(i: &Input) -> Out { type Vx = V232x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -170141183460469231731687303715884105728, max = 170141183460469231731687303715884105727))))]
pub struct V233x(pub i128);
fn run_233(i: &Input) -> Out { type Vx = V233x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 170141183460469231731687303715884105727))))]
pub struct V234x(pub i128);
fn run_234(i: &Input) -> Out { type Vx = V234x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -170141183460469231731687303715884105728))))]
pub struct V235x(pub i128);
fn run_235(i: &Input) -> Out { type Vx = V235x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 170141183460469231731687303715884105727, max = 170141183460469231731687303715884105727))))]
pub struct V236x(pub i128);
fn run_236(i: &Input) -> Out { type Vx = V236x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..=77))))]
pub struct V237x(pub i128);
fn run_237(i: &Input) -> Out { type Vx = V237x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..77))))]
pub struct V238x(pub i128);
fn run_238(i: &Input) -> Out { type Vx = V238x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(..=77))))]
pub struct V239x(pub i128);
fn run_239(i: &Input) -> Out { type Vx = V239x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(..77))))]
pub struct V240x(pub i128);
fn run_240(i: &Input) -> Out { type Vx = V240x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..))))]
pub struct V241x(pub i128);
fn run_241(i: &Input) -> Out { type Vx = V241x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -100, max = -50))))]
pub struct V242x(pub i128);
fn run_242(i: &Input) -> Out { type Vx = V242x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -100, max = -50, inclusive = false))))]
pub struct V243x(pub i128);
fn run_243(i: &Input) -> Out { type Vx = V243x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 0, max = 0))))]
pub struct V244x(pub i128);
fn run_244(i: &Input) -> Out { type Vx = V244x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer)]
pub struct V245x(pub isize);
fn run_245(i: &Input) -> Out { type Vx = V245x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Unlimited)))]
pub struct V246x(pub isize);
fn run_246(i: &Input) -> Out { type Vx = V246x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside())))]
pub struct V247x(pub isize);
fn run_247(i: &Input) -> Out { type Vx = V247x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside())))]
pub struct V248x(pub isize);
fn run_248(i: &Input) -> Out { type Vx = V248x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7))))]
pub struct V249x(pub isize);
fn run_249(i: &Input) -> Out { type Vx = V249x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, inclusive = false))))]
pub struct V250x(pub isize);
fn run_250(i: &Input) -> Out { type Vx = V250x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = 100))))]
pub struct V251x(pub isize);
fn run_251(i: &Input) -> Out { type Vx = V251x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = 100, inclusive = false))))]
pub struct V252x(pub isize);
fn run_252(i: &Input) -> Out { type Vx = V252x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 100))))]
pub struct V253x(pub isize);
fn run_253(i: &Input) -> Out { type Vx = V253x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 100, inclusive = true))))]
pub struct V254x(pub isize);
fn run_254(i: &Input) -> Out { type Vx = V254x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7, max = 100, inclusive = false))))]
pub struct V255x(pub isize);
fn run_255(i: &Input) -> Out { type Vx = V255x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 42, max = 42))))]
pub struct V256x(pub isize);
fn run_256(i: &Input) -> Out { type Vx = V256x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 42, max = 43, inclusive = false))))]
pub struct V257x(pub isize);
fn run_257(i: &Input) -> Out { type Vx = V257x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7))))]
pub struct V258x(pub isize);
fn run_258(i: &Input) -> Out { type Vx = V258x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, inclusive = false))))]
pub struct V259x(pub isize);
fn run_259(i: &Input) -> Out { type Vx = V259x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 100))))]
pub struct V260x(pub isize);
fn run_260(i: &Input) -> Out { type Vx = V260x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 100, inclusive = false))))]
pub struct V261x(pub isize);
fn run_261(i: &Input) -> Out { type Vx = V261x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 100))))]
pub struct V262x(pub isize);
fn run_262(i: &Input) -> Out { type Vx = V262x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 100, inclusive = true))))]
pub struct V263x(pub isize);
fn run_263(i: &Input) -> Out { type Vx = V263x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 100, inclusive = false))))]
pub struct V264x(pub isize);
fn run_264(i: &Input) -> Out { type Vx = V264x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 42, max = 42))))]
pub struct V265x(pub isize);
fn run_265(i: &Input) -> Out { type Vx = V265x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 42, max = 43, inclusive = false))))]
pub struct V266x(pub isize);
fn run_266(i: &Input) -> Out { type Vx = V266x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -9223372036854775808, max = -9223372036854775806))))]
pub struct V267x(pub isize);
fn run_267(i: &Input) -> Out { type Vx = V267x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 9223372036854775805, max = 9223372036854775807))))]
pub struct V268x(pub isize);
fn run_268(i: &Input) -> Out { type Vx = V268x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 9223372036854775804, max = 9223372036854775807, inclusive = false))))]
pub struct V269x(pub isize);
fn run_269(i: &Input) -> Out { type Vx = V269x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -9223372036854775808, max = 9223372036854775807))))]
pub struct V270x(pub isize);
fn run_270(i: &Input) -> Out { type Vx = V270x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 9223372036854775807))))]
pub struct V271x(pub isize);
fn run_271(i: &Input) -> Out { type Vx = V271x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = -9223372036854775808))))]
pub struct V272x(pub isize);
fn run_272(i: &Input) -> Out { type Vx = V272x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 9223372036854775807, max = 9223372036854775807))))]
pub struct V273x(pub isize);
fn run_273(i: &Input) -> Out { type Vx = V273x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..=77))))]
pub struct V274x(pub isize);
fn run_274(i: &Input) -> Out { type Vx = V274x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..77))))]
pub struct V275x(pub isize);
fn run_275(i: &Input) -> Out { type Vx = V275x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(..=77))))]
pub struct V276x(pub isize);
fn run_276(i: &Input) -> Out { type Vx = V276x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(..77))))]
pub struct V277x(pub isize);
fn run_277(i: &Input) -> Out { type Vx = V277x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..))))]
pub struct V278x(pub isize);
fn run_278(i: &Input) -> Out { type Vx = V278x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -9223372036854775808, max = -9223372036854775806))))]
pub struct V279x(pub isize);
fn run_279(i: &Input) -> Out { type Vx = V279x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 9223372036854775805, max = 9223372036854775807))))]
pub struct V280x(pub isize);
fn run_280(i: &Input) -> Out { type Vx = V280x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 9223372036854775804, max = 9223372036854775807, inclusive = false))))]
pub struct V281x(pub isize);
fn run_281(i: &Input) -> Out { type Vx = V281x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -9223372036854775808, max = 9223372036854775807))))]
pub struct V282x(pub isize);
fn run_282(i: &Input) -> Out { type Vx = V282x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 9223372036854775807))))]
pub struct V283x(pub isize);
fn run_283(i: &Input) -> Out { type Vx = V283x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -9223372036854775808))))]
pub struct V284x(pub isize);
fn run_284(i: &Input) -> Out { type Vx = V284x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 9223372036854775807, max = 9223372036854775807))))]
pub struct V285x(pub isize);
fn run_285(i: &Input) -> Out { type Vx = V285x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..=77))))]
pub struct V286x(pub isize);
fn run_286(i: &Input) -> Out { type Vx = V286x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..77))))]
pub struct V287x(pub isize);
fn run_287(i: &Input) -> Out { type Vx = V287x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(..=77))))]
pub struct V288x(pub isize);
fn run_288(i: &Input) -> Out { type Vx = V288x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(..77))))]
pub struct V289x(pub isize);
fn run_289(i: &Input) -> Out { type Vx = V289x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..))))]
pub struct V290x(pub isize);
fn run_290(i: &Input) -> Out { type Vx = V290x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -100, max = -50))))]
pub struct V291x(pub isize);
fn run_291(i: &Input) -> Out { type Vx = V291x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -100, max = -50, inclusive = false))))]
pub struct V292x(pub isize);
fn run_292(i: &Input) -> Out { type Vx = V292x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 0, max = 0))))]
pub struct V293x(pub isize);
fn run_293(i: &Input) -> Out { type Vx = V293x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::I(x) => run_signed::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer)]
pub struct V294x(pub u8);
fn run_294(i: &Input) -> Out { type Vx = V294x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Unlimited)))]
pub struct V295x(pub u8);
fn run_295(i: &Input) -> Out { type Vx = V295x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside())))]
pub struct V296x(pub u8);
fn run_296(i: &Input) -> Out { type Vx = V296x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside())))]
pub struct V297x(pub u8);
fn run_297(i: &Input) -> Out { type Vx = V297x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3))))]
pub struct V298x(pub u8);
fn run_298(i: &Input) -> Out { type Vx = V298x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, inclusive = false))))]
pub struct V299x(pub u8);
fn run_299(i: &Input) -> Out { type Vx = V299x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 100))))]
pub struct V300x(pub u8);
fn run_300(i: &Input) -> Out { type Vx = V300x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 100, inclusive = false))))]
pub struct V301x(pub u8);
fn run_301(i: &Input) -> Out { type Vx = V301x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100))))]
pub struct V302x(pub u8);
fn run_302(i: &Input) -> Out { type Vx = V302x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100, inclusive = true))))]
pub struct V303x(pub u8);
fn run_303(i: &Input) -> Out { type Vx = V303x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100, inclusive = false))))]
pub struct V304x(pub u8);
fn run_304(i: &Input) -> Out { type Vx = V304x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 42, max = 42))))]
pub struct V305x(pub u8);
fn run_305(i: &Input) -> Out { type Vx = V305x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 42, max = 43, inclusive = false))))]
pub struct V306x(pub u8);
fn run_306(i: &Input) -> Out { type Vx = V306x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3))))]
pub struct V307x(pub u8);
fn run_307(i: &Input) -> Out { type Vx = V307x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, inclusive = false))))]
pub struct V308x(pub u8);
fn run_308(i: &Input) -> Out { type Vx = V308x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 100))))]
pub struct V309x(pub u8);
fn run_309(i: &Input) -> Out { type Vx = V309x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 100, inclusive = false))))]
pub struct V310x(pub u8);
fn run_310(i: &Input) -> Out { type Vx = V310x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100))))]
pub struct V311x(pub u8);
fn run_311(i: &Input) -> Out { type Vx = V311x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100, inclusive = true))))]
pub struct V312x(pub u8);
fn run_312(i: &Input) -> Out { type Vx = V312x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100, inclusive = false))))]
pub struct V313x(pub u8);
fn run_313(i: &Input) -> Out { type Vx = V313x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 42, max = 42))))]
pub struct V314x(pub u8);
fn run_314(i: &Input) -> Out { type Vx = V314x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 42, max = 43, inclusive = false))))]
pub struct V315x(pub u8);
fn run_315(i: &Input) -> Out { type Vx = V315x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 2))))]
pub struct V316x(pub u8);
fn run_316(i: &Input) -> Out { type Vx = V316x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 253, max = 255))))]
pub struct V317x(pub u8);
fn run_317(i: &Input) -> Out { type Vx = V317x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 252, max = 255, inclusive = false))))]
pub struct V318x(pub u8);
fn run_318(i: &Input) -> Out { type Vx = V318x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 255))))]
pub struct V319x(pub u8);
fn run_319(i: &Input) -> Out { type Vx = V319x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 255))))]
pub struct V320x(pub u8);
fn run_320(i: &Input) -> Out { type Vx = V320x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 0))))]
pub struct V321x(pub u8);
fn run_321(i: &Input) -> Out { type Vx = V321x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 255, max = 255))))]
pub struct V322x(pub u8);
fn run_322(i: &Input) -> Out { type Vx = V322x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..=77))))]
pub struct V323x(pub u8);
fn run_323(i: &Input) -> Out { type Vx = V323x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..77))))]
pub struct V324x(pub u8);
fn run_324(i: &Input) -> Out { type Vx = V324x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(..=77))))]
pub struct V325x(pub u8);
fn run_325(i: &Input) -> Out { type Vx = V325x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(..77))))]
pub struct V326x(pub u8);
fn run_326(i: &Input) -> Out { type Vx = V326x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..))))]
pub struct V327x(pub u8);
fn run_327(i: &Input) -> Out { type Vx = V327x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 2))))]
pub struct V328x(pub u8);
fn run_328(i: &Input) -> Out { type Vx = V328x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 253, max = 255))))]
pub struct V329x(pub u8);
fn run_329(i: &Input) -> Out { type Vx = V329x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 252, max = 255, inclusive = false))))]
pub struct V330x(pub u8);
fn run_330(i: &Input) -> Out { type Vx = V330x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 255))))]
pub struct V331x(pub u8);
fn run_331(i: &Input) -> Out { type Vx = V331x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 255))))]
pub struct V332x(pub u8);
fn run_332(i: &Input) -> Out { type Vx = V332x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 0))))]
pub struct V333x(pub u8);
fn run_333(i: &Input) -> Out { type Vx = V333x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 255, max = 255))))]
pub struct V334x(pub u8);
fn run_334(i: &Input) -> Out { type Vx = V334x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..=77))))]
pub struct V335x(pub u8);
fn run_335(i: &Input) -> Out { type Vx = V335x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..77))))]
pub struct V336x(pub u8);
fn run_336(i: &Input) -> Out { type Vx = V336x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(..=77))))]
pub struct V337x(pub u8);
fn run_337(i: &Input) -> Out { type Vx = V337x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(..77))))]
pub struct V338x(pub u8);
fn run_338(i: &Input) -> Out { type Vx = V338x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..))))]
pub struct V339x(pub u8);
fn run_339(i: &Input) -> Out { type Vx = V339x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer)]
pub struct V340x(pub u16);
fn run_340(i: &Input) -> Out { type Vx = V340x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Unlimited)))]
pub struct V341x(pub u16);
fn run_341(i: &Input) -> Out { type Vx = V341x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside())))]
pub struct V342x(pub u16);
fn run_342(i: &Input) -> Out { type Vx = V342x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside())))]
pub struct V343x(pub u16);
fn run_343(i: &Input) -> Out { type Vx = V343x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3))))]
pub struct V344x(pub u16);
fn run_344(i: &Input) -> Out { type Vx = V344x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, inclusive = false))))]
pub struct V345x(pub u16);
fn run_345(i: &Input) -> Out { type Vx = V345x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 100))))]
pub struct V346x(pub u16);
fn run_346(i: &Input) -> Out { type Vx = V346x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 100, inclusive = false))))]
pub struct V347x(pub u16);
fn run_347(i: &Input) -> Out { type Vx = V347x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100))))]
pub struct V348x(pub u16);
fn run_348(i: &Input) -> Out { type Vx = V348x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100, inclusive = true))))]
pub struct V349x(pub u16);
fn run_349(i: &Input) -> Out { type Vx = V349x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100, inclusive = false))))]
pub struct V350x(pub u16);
fn run_350(i: &Input) -> Out { type Vx = V350x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 42, max = 42))))]
pub struct V351x(pub u16);
fn run_351(i: &Input) -> Out { type Vx = V351x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 42, max = 43, inclusive = false))))]
pub struct V352x(pub u16);
fn run_352(i: &Input) -> Out { type Vx = V352x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3))))]
pub struct V353x(pub u16);
fn run_353(i: &Input) -> Out { type Vx = V353x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, inclusive = false))))]
pub struct V354x(pub u16);
fn run_354(i: &Input) -> Out { type Vx = V354x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 100))))]
pub struct V355x(pub u16);
fn run_355(i: &Input) -> Out { type Vx = V355x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 100, inclusive = false))))]
pub struct V356x(pub u16);
fn run_356(i: &Input) -> Out { type Vx = V356x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100))))]
pub struct V357x(pub u16);
fn run_357(i: &Input) -> Out { type Vx = V357x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100, inclusive = true))))]
pub struct V358x(pub u16);
fn run_358(i: &Input) -> Out { type Vx = V358x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100, inclusive = false))))]
pub struct V359x(pub u16);
fn run_359(i: &Input) -> Out { type Vx = V359x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 42, max = 42))))]
pub struct V360x(pub u16);
fn run_360(i: &Input) -> Out { type Vx = V360x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 42, max = 43, inclusive = false))))]
pub struct V361x(pub u16);
fn run_361(i: &Input) -> Out { type Vx = V361x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 2))))]
pub struct V362x(pub u16);
fn run_362(i: &Input) -> Out { type Vx = V362x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 65533, max = 65535))))]
pub struct V363x(pub u16);
fn run_363(i: &Input) -> Out { type Vx = V363x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 65532, max = 65535, inclusive = false))))]
pub struct V364x(pub u16);
fn run_364(i: &Input) -> Out { type Vx = V364x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 65535))))]
pub struct V365x(pub u16);
fn run_365(i: &Input) -> Out { type Vx = V365x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 65535))))]
pub struct V366x(pub u16);
fn run_366(i: &Input) -> Out { type Vx = V366x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 0))))]
pub struct V367x(pub u16);
fn run_367(i: &Input) -> Out { type Vx = V367x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 65535, max = 65535))))]
pub struct V368x(pub u16);
fn run_368(i: &Input) -> Out { type Vx = V368x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..=77))))]
pub struct V369x(pub u16);
fn run_369(i: &Input) -> Out { type Vx = V369x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..77))))]
pub struct V370x(pub u16);
fn run_370(i: &Input) -> Out { type Vx = V370x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(..=77))))]
pub struct V371x(pub u16);
fn run_371(i: &Input) -> Out { type Vx = V371x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(..77))))]
pub struct V372x(pub u16);
fn run_372(i: &Input) -> Out { type Vx = V372x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..))))]
pub struct V373x(pub u16);
fn run_373(i: &Input) -> Out { type Vx = V373x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 2))))]
pub struct V374x(pub u16);
fn run_374(i: &Input) -> Out { type Vx = V374x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 65533, max = 65535))))]
pub struct V375x(pub u16);
fn run_375(i: &Input) -> Out { type Vx = V375x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 65532, max = 65535, inclusive = false))))]
pub struct V376x(pub u16);
fn run_376(i: &Input) -> Out { type Vx = V376x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 65535))))]
pub struct V377x(pub u16);
fn run_377(i: &Input) -> Out { type Vx = V377x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 65535))))]
pub struct V378x(pub u16);
fn run_378(i: &Input) -> Out { type Vx = V378x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 0))))]
pub struct V379x(pub u16);
fn run_379(i: &Input) -> Out { type Vx = V379x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 65535, max = 65535))))]
pub struct V380x(pub u16);
fn run_380(i: &Input) -> Out { type Vx = V380x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..=77))))]
pub struct V381x(pub u16);
fn run_381(i: &Input) -> Out { type Vx = V381x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..77))))]
pub struct V382x(pub u16);
fn run_382(i: &Input) -> Out { type Vx = V382x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(..=77))))]
pub struct V383x(pub u16);
fn run_383(i: &Input) -> Out { type Vx = V383x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(..77))))]
pub struct V384x(pub u16);
fn run_384(i: &Input) -> Out { type Vx = V384x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..))))]
pub struct V385x(pub u16);
fn run_385(i: &Input) -> Out { type Vx = V385x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer)]
pub struct V386x(pub u32);
fn run_386(i: &Input) -> Out { type Vx = V386x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Unlimited)))]
pub struct V387x(pub u32);
fn run_387(i: &Input) -> Out { type Vx = V387x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside())))]
pub struct V388x(pub u32);
fn run_388(i: &Input) -> Out { type Vx = V388x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside())))]
pub struct V389x(pub u32);
fn run_389(i: &Input) -> Out { type Vx = V389x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3))))]
pub struct V390x(pub u32);
fn run_390(i: &Input) -> Out { type Vx = V390x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, inclusive = false))))]
pub struct V391x(pub u32);
fn run_391(i: &Input) -> Out { type Vx = V391x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 100))))]
pub struct V392x(pub u32);
fn run_392(i: &Input) -> Out { type Vx = V392x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 100, inclusive = false))))]
pub struct V393x(pub u32);
fn run_393(i: &Input) -> Out { type Vx = V393x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100))))]
pub struct V394x(pub u32);
fn run_394(i: &Input) -> Out { type Vx = V394x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100, inclusive = true))))]
pub struct V395x(pub u32);
fn run_395(i: &Input) -> Out { type Vx = V395x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100, inclusive = false))))]
pub struct V396x(pub u32);
fn run_396(i: &Input) -> Out { type Vx = V396x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 42, max = 42))))]
pub struct V397x(pub u32);
fn run_397(i: &Input) -> Out { type Vx = V397x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 42, max = 43, inclusive = false))))]
pub struct V398x(pub u32);
fn run_398(i: &Input) -> Out { type Vx = V398x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3))))]
pub struct V399x(pub u32);
fn run_399(i: &Input) -> Out { type Vx = V399x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, inclusive = false))))]
pub struct V400x(pub u32);
fn run_400(i: &Input) -> Out { type Vx = V400x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 100))))]
pub struct V401x(pub u32);
fn run_401(i: &Input) -> Out { type Vx = V401x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 100, inclusive = false))))]
pub struct V402x(pub u32);
fn run_402(i: &Input) -> Out { type Vx = V402x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100))))]
pub struct V403x(pub u32);
fn run_403(i: &Input) -> Out { type Vx = V403x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100, inclusive = true))))]
pub struct V404x(pub u32);
fn run_404(i: &Input) -> Out { type Vx = V404x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100, inclusive = false))))]
pub struct V405x(pub u32);
fn run_405(i: &Input) -> Out { type Vx = V405x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 42, max = 42))))]
pub struct V406x(pub u32);
fn run_406(i: &Input) -> Out { type Vx = V406x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 42, max = 43, inclusive = false))))]
pub struct V407x(pub u32);
fn run_407(i: &Input) -> Out { type Vx = V407x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 2))))]
pub struct V408x(pub u32);
fn run_408(i: &Input) -> Out { type Vx = V408x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 4294967293, max = 4294967295))))]
pub struct V409x(pub u32);
fn run_409(i: &Input) -> Out { type Vx = V409x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 4294967292, max = 4294967295, inclusive = false))))]
pub struct V410x(pub u32);
fn run_410(i: &Input) -> Out { type Vx = V410x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 4294967295))))]
pub struct V411x(pub u32);
fn run_411(i: &Input) -> Out { type Vx = V411x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 4294967295))))]
pub struct V412x(pub u32);
fn run_412(i: &Input) -> Out { type Vx = V412x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 0))))]
pub struct V413x(pub u32);
fn run_413(i: &Input) -> Out { type Vx = V413x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 4294967295, max = 4294967295))))]
pub struct V414x(pub u32);
fn run_414(i: &Input) -> Out { type Vx = V414x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..=77))))]
pub struct V415x(pub u32);
fn run_415(i: &Input) -> Out { type Vx = V415x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..77))))]
pub struct V416x(pub u32);
fn run_416(i: &Input) -> Out { type Vx = V416x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(..=77))))]
pub struct V417x(pub u32);
fn run_417(i: &Input) -> Out { type Vx = V417x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(..77))))]
pub struct V418x(pub u32);
fn run_418(i: &Input) -> Out { type Vx = V418x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..))))]
pub struct V419x(pub u32);
fn run_419(i: &Input) -> Out { type Vx = V419x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 2))))]
pub struct V420x(pub u32);
fn run_420(i: &Input) -> Out { type Vx = V420x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 4294967293, max = 4294967295))))]
pub struct V421x(pub u32);
fn run_421(i: &Input) -> Out { type Vx = V421x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 4294967292, max = 4294967295, inclusive = false))))]
pub struct V422x(pub u32);
fn run_422(i: &Input) -> Out { type Vx = V422x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 4294967295))))]
pub struct V423x(pub u32);
fn run_423(i: &Input) -> Out { type Vx = V423x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 4294967295))))]
pub struct V424x(pub u32);
fn run_424(i: &Input) -> Out { type Vx = V424x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 0))))]
pub struct V425x(pub u32);
fn run_425(i: &Input) -> Out { type Vx = V425x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 4294967295, max = 4294967295))))]
pub struct V426x(pub u32);
fn run_426(i: &Input) -> Out { type Vx = V426x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..=77))))]
pub struct V427x(pub u32);
fn run_427(i: &Input) -> Out { type Vx = V427x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..77))))]
pub struct V428x(pub u32);
fn run_428(i: &Input) -> Out { type Vx = V428x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(..=77))))]
pub struct V429x(pub u32);
fn run_429(i: &Input) -> Out { type Vx = V429x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(..77))))]
pub struct V430x(pub u32);
fn run_430(i: &Input) -> Out { type Vx = V430x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..))))]
pub struct V431x(pub u32);
fn run_431(i: &Input) -> Out { type Vx = V431x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer)]
pub struct V432x(pub u64);
fn run_432(i: &Input) -> Out { type Vx = V432x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Unlimited)))]
pub struct V433x(pub u64);
fn run_433(i: &Input) -> Out { type Vx = V433x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside())))]
pub struct V434x(pub u64);
fn run_434(i: &Input) -> Out { type Vx = V434x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside())))]
pub struct V435x(pub u64);
fn run_435(i: &Input) -> Out { type Vx = V435x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3))))]
pub struct V436x(pub u64);
fn run_436(i: &Input) -> Out { type Vx = V436x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, inclusive = false))))]
pub struct V437x(pub u64);
fn run_437(i: &Input) -> Out { type Vx = V437x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 100))))]
pub struct V438x(pub u64);
fn run_438(i: &Input) -> Out { type Vx = V438x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 100, inclusive = false))))]
pub struct V439x(pub u64);
fn run_439(i: &Input) -> Out { type Vx = V439x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100))))]
pub struct V440x(pub u64);
fn run_440(i: &Input) -> Out { type Vx = V440x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100, inclusive = true))))]
pub struct V441x(pub u64);
fn run_441(i: &Input) -> Out { type Vx = V441x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100, inclusive = false))))]
pub struct V442x(pub u64);
fn run_442(i: &Input) -> Out { type Vx = V442x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 42, max = 42))))]
pub struct V443x(pub u64);
fn run_443(i: &Input) -> Out { type Vx = V443x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 42, max = 43, inclusive = false))))]
pub struct V444x(pub u64);
fn run_444(i: &Input) -> Out { type Vx = V444x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3))))]
pub struct V445x(pub u64);
fn run_445(i: &Input) -> Out { type Vx = V445x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, inclusive = false))))]
pub struct V446x(pub u64);
fn run_446(i: &Input) -> Out { type Vx = V446x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 100))))]
pub struct V447x(pub u64);
fn run_447(i: &Input) -> Out { type Vx = V447x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 100, inclusive = false))))]
pub struct V448x(pub u64);
fn run_448(i: &Input) -> Out { type Vx = V448x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100))))]
pub struct V449x(pub u64);
fn run_449(i: &Input) -> Out { type Vx = V449x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100, inclusive = true))))]
pub struct V450x(pub u64);
fn run_450(i: &Input) -> Out { type Vx = V450x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100, inclusive = false))))]
pub struct V451x(pub u64);
fn run_451(i: &Input) -> Out { type Vx = V451x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 42, max = 42))))]
pub struct V452x(pub u64);
fn run_452(i: &Input) -> Out { type Vx = V452x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 42, max = 43, inclusive = false))))]
pub struct V453x(pub u64);
fn run_453(i: &Input) -> Out { type Vx = V453x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 2))))]
pub struct V454x(pub u64);
fn run_454(i: &Input) -> Out { type Vx = V454x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 18446744073709551613, max = 18446744073709551615))))]
pub struct V455x(pub u64);
fn run_455(i: &Input) -> Out { type Vx = V455x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 18446744073709551612, max = 18446744073709551615, inclusive = false))))]
pub struct V456x(pub u64);
fn run_456(i: &Input) -> Out { type Vx = V456x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 18446744073709551615))))]
pub struct V457x(pub u64);
fn run_457(i: &Input) -> Out { type Vx = V457x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 18446744073709551615))))]
pub struct V458x(pub u64);
fn run_458(i: &Input) -> Out { type Vx = V458x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 0))))]
pub struct V459x(pub u64);
fn run_459(i: &Input) -> Out { type Vx = V459x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 18446744073709551615, max = 18446744073709551615))))]
pub struct V460x(pub u64);
fn run_460(i: &Input) -> Out { type Vx = V460x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..=77))))]
pub struct V461x(pub u64);
fn run_461(i: &Input) -> Out { type Vx = V461x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..77))))]
pub struct V462x(pub u64);
fn run_462(i: &Input) -> Out { type Vx = V462x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(..=77))))]
pub struct V463x(pub u64);
fn run_463(i: &Input) -> Out { type Vx = V463x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(..77))))]
pub struct V464x(pub u64);
fn run_464(i: &Input) -> Out { type Vx = V464x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..))))]
pub struct V465x(pub u64);
fn run_465(i: &Input) -> Out { type Vx = V465x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 2))))]
pub struct V466x(pub u64);
fn run_466(i: &Input) -> Out { type Vx = V466x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 18446744073709551613, max = 18446744073709551615))))]
pub struct V467x(pub u64);
fn run_467(i: &Input) -> Out { type Vx = V467x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 18446744073709551612, max = 18446744073709551615, inclusive = false))))]
pub struct V468x(pub u64);
fn run_468(i: &Input) -> Out { type Vx = V468x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 18446744073709551615))))]
pub struct V469x(pub u64);
fn run_469(i: &Input) -> Out { type Vx = V469x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 18446744073709551615))))]
pub struct V470x(pub u64);
fn run_470(i: &Input) -> Out { type Vx = V470x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 0))))]
pub struct V471x(pub u64);
fn run_471(i: &Input) -> Out { type Vx = V471x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 18446744073709551615, max = 18446744073709551615))))]
pub struct V472x(pub u64);
fn run_472(i: &Input) -> Out { type Vx = V472x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..=77))))]
pub struct V473x(pub u64);
fn run_473(i: &Input) -> Out { type Vx = V473x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..77))))]
pub struct V474x(pub u64);
fn run_474(i: &Input) -> Out { type Vx = V474x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(..=77))))]
pub struct V475x(pub u64);
fn run_475(i: &Input) -> Out { type Vx = V475x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(..77))))]
pub struct V476x(pub u64);
fn run_476(i: &Input) -> Out { type Vx = V476x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..))))]
pub struct V477x(pub u64);
fn run_477(i: &Input) -> Out { type Vx = V477x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer)]
pub struct V478x(pub u128);
fn run_478(i: &Input) -> Out { type Vx = V478x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Unlimited)))]
pub struct V479x(pub u128);
fn run_479(i: &Input) -> Out { type Vx = V479x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside())))]
pub struct V480x(pub u128);
fn run_480(i: &Input) -> Out { type Vx = V480x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside())))]
pub struct V481x(pub u128);
fn run_481(i: &Input) -> Out { type Vx = V481x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3))))]
pub struct V482x(pub u128);
fn run_482(i: &Input) -> Out { type Vx = V482x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, inclusive = false))))]
pub struct V483x(pub u128);
fn run_483(i: &Input) -> Out { type Vx = V483x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 100))))]
pub struct V484x(pub u128);
fn run_484(i: &Input) -> Out { type Vx = V484x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 100, inclusive = false))))]
pub struct V485x(pub u128);
fn run_485(i: &Input) -> Out { type Vx = V485x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100))))]
pub struct V486x(pub u128);
fn run_486(i: &Input) -> Out { type Vx = V486x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100, inclusive = true))))]
pub struct V487x(pub u128);
fn run_487(i: &Input) -> Out { type Vx = V487x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100, inclusive = false))))]
pub struct V488x(pub u128);
fn run_488(i: &Input) -> Out { type Vx = V488x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 42, max = 42))))]
pub struct V489x(pub u128);
fn run_489(i: &Input) -> Out { type Vx = V489x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 42, max = 43, inclusive = false))))]
pub struct V490x(pub u128);
fn run_490(i: &Input) -> Out { type Vx = V490x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3))))]
pub struct V491x(pub u128);
fn run_491(i: &Input) -> Out { type Vx = V491x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, inclusive = false))))]
pub struct V492x(pub u128);
fn run_492(i: &Input) -> Out { type Vx = V492x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 100))))]
pub struct V493x(pub u128);
fn run_493(i: &Input) -> Out { type Vx = V493x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 100, inclusive = false))))]
pub struct V494x(pub u128);
fn run_494(i: &Input) -> Out { type Vx = V494x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100))))]
pub struct V495x(pub u128);
fn run_495(i: &Input) -> Out { type Vx = V495x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100, inclusive = true))))]
pub struct V496x(pub u128);
fn run_496(i: &Input) -> Out { type Vx = V496x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100, inclusive = false))))]
pub struct V497x(pub u128);
fn run_497(i: &Input) -> Out { type Vx = V497x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 42, max = 42))))]
pub struct V498x(pub u128);
fn run_498(i: &Input) -> Out { type Vx = V498x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 42, max = 43, inclusive = false))))]
pub struct V499x(pub u128);
fn run_499(i: &Input) -> Out { type Vx = V499x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 2))))]
pub struct V500x(pub u128);
fn run_500(i: &Input) -> Out { type Vx = V500x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 340282366920938463463374607431768211453, max = 340282366920938463463374607431768211455))))]
pub struct V501x(pub u128);
fn run_501(i: &Input) -> Out { type Vx = V501x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 340282366920938463463374607431768211452, max = 340282366920938463463374607431768211455, inclusive = false))))]
pub struct V502x(pub u128);
fn run_502(i: &Input) -> Out { type Vx = V502x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 340282366920938463463374607431768211455))))]
pub struct V503x(pub u128);
fn run_503(i: &Input) -> Out { type Vx = V503x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 340282366920938463463374607431768211455))))]
pub struct V504x(pub u128);
fn run_504(i: &Input) -> Out { type Vx = V504x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 0))))]
pub struct V505x(pub u128);
fn run_505(i: &Input) -> Out { type Vx = V505x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 340282366920938463463374607431768211455, max = 340282366920938463463374607431768211455))))]
pub struct V506x(pub u128);
fn run_506(i: &Input) -> Out { type Vx = V506x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..=77))))]
pub struct V507x(pub u128);
fn run_507(i: &Input) -> Out { type Vx = V507x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..77))))]
pub struct V508x(pub u128);
fn run_508(i: &Input) -> Out { type Vx = V508x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(..=77))))]
pub struct V509x(pub u128);
fn run_509(i: &Input) -> Out { type Vx = V509x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(..77))))]
pub struct V510x(pub u128);
fn run_510(i: &Input) -> Out { type Vx = V510x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..))))]
pub struct V511x(pub u128);
fn run_511(i: &Input) -> Out { type Vx = V511x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 2))))]
pub struct V512x(pub u128);
fn run_512(i: &Input) -> Out { type Vx = V512x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 340282366920938463463374607431768211453, max = 340282366920938463463374607431768211455))))]
pub struct V513x(pub u128);
fn run_513(i: &Input) -> Out { type Vx = V513x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 340282366920938463463374607431768211452, max = 340282366920938463463374607431768211455, inclusive = false))))]
pub struct V514x(pub u128);
fn run_514(i: &Input) -> Out { type Vx = V514x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 340282366920938463463374607431768211455))))]
pub struct V515x(pub u128);
fn run_515(i: &Input) -> Out { type Vx = V515x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 340282366920938463463374607431768211455))))]
pub struct V516x(pub u128);
fn run_516(i: &Input) -> Out { type Vx = V516x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 0))))]
pub struct V517x(pub u128);
fn run_517(i: &Input) -> Out { type Vx = V517x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 340282366920938463463374607431768211455, max = 340282366920938463463374607431768211455))))]
pub struct V518x(pub u128);
fn run_518(i: &Input) -> Out { type Vx = V518x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..=77))))]
pub struct V519x(pub u128);
fn run_519(i: &Input) -> Out { type Vx = V519x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..77))))]
pub struct V520x(pub u128);
fn run_520(i: &Input) -> Out { type Vx = V520x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(..=77))))]
pub struct V521x(pub u128);
fn run_521(i: &Input) -> Out { type Vx = V521x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(..77))))]
pub struct V522x(pub u128);
fn run_522(i: &Input) -> Out { type Vx = V522x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..))))]
pub struct V523x(pub u128);
fn run_523(i: &Input) -> Out { type Vx = V523x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer)]
pub struct V524x(pub usize);
fn run_524(i: &Input) -> Out { type Vx = V524x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Unlimited)))]
pub struct V525x(pub usize);
fn run_525(i: &Input) -> Out { type Vx = V525x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside())))]
pub struct V526x(pub usize);
fn run_526(i: &Input) -> Out { type Vx = V526x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside())))]
pub struct V527x(pub usize);
fn run_527(i: &Input) -> Out { type Vx = V527x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3))))]
pub struct V528x(pub usize);
fn run_528(i: &Input) -> Out { type Vx = V528x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, inclusive = false))))]
pub struct V529x(pub usize);
fn run_529(i: &Input) -> Out { type Vx = V529x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 100))))]
pub struct V530x(pub usize);
fn run_530(i: &Input) -> Out { type Vx = V530x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 100, inclusive = false))))]
pub struct V531x(pub usize);
fn run_531(i: &Input) -> Out { type Vx = V531x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100))))]
pub struct V532x(pub usize);
fn run_532(i: &Input) -> Out { type Vx = V532x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100, inclusive = true))))]
pub struct V533x(pub usize);
fn run_533(i: &Input) -> Out { type Vx = V533x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100, inclusive = false))))]
pub struct V534x(pub usize);
fn run_534(i: &Input) -> Out { type Vx = V534x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 42, max = 42))))]
pub struct V535x(pub usize);
fn run_535(i: &Input) -> Out { type Vx = V535x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 42, max = 43, inclusive = false))))]
pub struct V536x(pub usize);
fn run_536(i: &Input) -> Out { type Vx = V536x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3))))]
pub struct V537x(pub usize);
fn run_537(i: &Input) -> Out { type Vx = V537x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, inclusive = false))))]
pub struct V538x(pub usize);
fn run_538(i: &Input) -> Out { type Vx = V538x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 100))))]
pub struct V539x(pub usize);
fn run_539(i: &Input) -> Out { type Vx = V539x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 100, inclusive = false))))]
pub struct V540x(pub usize);
fn run_540(i: &Input) -> Out { type Vx = V540x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100))))]
pub struct V541x(pub usize);
fn run_541(i: &Input) -> Out { type Vx = V541x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100, inclusive = true))))]
pub struct V542x(pub usize);
fn run_542(i: &Input) -> Out { type Vx = V542x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100, inclusive = false))))]
pub struct V543x(pub usize);
fn run_543(i: &Input) -> Out { type Vx = V543x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 42, max = 42))))]
pub struct V544x(pub usize);
fn run_544(i: &Input) -> Out { type Vx = V544x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 42, max = 43, inclusive = false))))]
pub struct V545x(pub usize);
fn run_545(i: &Input) -> Out { type Vx = V545x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 2))))]
pub struct V546x(pub usize);
fn run_546(i: &Input) -> Out { type Vx = V546x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 18446744073709551613, max = 18446744073709551615))))]
pub struct V547x(pub usize);
fn run_547(i: &Input) -> Out { type Vx = V547x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 18446744073709551612, max = 18446744073709551615, inclusive = false))))]
pub struct V548x(pub usize);
fn run_548(i: &Input) -> Out { type Vx = V548x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 18446744073709551615))))]
pub struct V549x(pub usize);
fn run_549(i: &Input) -> Out { type Vx = V549x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 18446744073709551615))))]
pub struct V550x(pub usize);
fn run_550(i: &Input) -> Out { type Vx = V550x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 0))))]
pub struct V551x(pub usize);
fn run_551(i: &Input) -> Out { type Vx = V551x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 18446744073709551615, max = 18446744073709551615))))]
pub struct V552x(pub usize);
fn run_552(i: &Input) -> Out { type Vx = V552x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..=77))))]
pub struct V553x(pub usize);
fn run_553(i: &Input) -> Out { type Vx = V553x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..77))))]
pub struct V554x(pub usize);
fn run_554(i: &Input) -> Out { type Vx = V554x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(..=77))))]
pub struct V555x(pub usize);
fn run_555(i: &Input) -> Out { type Vx = V555x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(..77))))]
pub struct V556x(pub usize);
fn run_556(i: &Input) -> Out { type Vx = V556x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..))))]
pub struct V557x(pub usize);
fn run_557(i: &Input) -> Out { type Vx = V557x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 2))))]
pub struct V558x(pub usize);
fn run_558(i: &Input) -> Out { type Vx = V558x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 18446744073709551613, max = 18446744073709551615))))]
pub struct V559x(pub usize);
fn run_559(i: &Input) -> Out { type Vx = V559x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 18446744073709551612, max = 18446744073709551615, inclusive = false))))]
pub struct V560x(pub usize);
fn run_560(i: &Input) -> Out { type Vx = V560x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 18446744073709551615))))]
pub struct V561x(pub usize);
fn run_561(i: &Input) -> Out { type Vx = V561x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 18446744073709551615))))]
pub struct V562x(pub usize);
fn run_562(i: &Input) -> Out { type Vx = V562x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 0))))]
pub struct V563x(pub usize);
fn run_563(i: &Input) -> Out { type Vx = V563x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 18446744073709551615, max = 18446744073709551615))))]
pub struct V564x(pub usize);
fn run_564(i: &Input) -> Out { type Vx = V564x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..=77))))]
pub struct V565x(pub usize);
fn run_565(i: &Input) -> Out { type Vx = V565x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..77))))]
pub struct V566x(pub usize);
fn run_566(i: &Input) -> Out { type Vx = V566x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(..=77))))]
pub struct V567x(pub usize);
fn run_567(i: &Input) -> Out { type Vx = V567x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(..77))))]
pub struct V568x(pub usize);
fn run_568(i: &Input) -> Out { type Vx = V568x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..))))]
pub struct V569x(pub usize);
fn run_569(i: &Input) -> Out { type Vx = V569x; let f: fn(&Vx) -> Fields = |v| vec![("value", v.0.to_string())]; match i { Input::Str(s) => run_str::<Vx>(s, f), Input::U(x) => run_unsigned::<Vx>(*x, f), _ => bad_input() } }
pub static CFGS: &[Cfg] = &[
    Cfg { name: "i8 signed_integer()", v: "signed_integer", attr: "", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "i8", run: run_0 },
    Cfg { name: "i8 signed_integer(range(Unlimited))", v: "signed_integer", attr: "range(Unlimited)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "i8", run: run_1 },
    Cfg { name: "i8 signed_integer(range(Inside()))", v: "signed_integer", attr: "range(Inside())", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "i8", run: run_2 },
    Cfg { name: "i8 signed_integer(range(Outside()))", v: "signed_integer", attr: "range(Outside())", opts: &[("kind", "Outside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "i8", run: run_3 },
    Cfg { name: "i8 signed_integer(range(Inside(min = -7)))", v: "signed_integer", attr: "range(Inside(min = -7))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", ""), ("inclusive", "true")], ty: "i8", run: run_4 },
    Cfg { name: "i8 signed_integer(range(Inside(min = -7, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = -7, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", ""), ("inclusive", "false")], ty: "i8", run: run_5 },
    Cfg { name: "i8 signed_integer(range(Inside(max = 100)))", v: "signed_integer", attr: "range(Inside(max = 100))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "i8", run: run_6 },
    Cfg { name: "i8 signed_integer(range(Inside(max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Inside(max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "i8", run: run_7 },
    Cfg { name: "i8 signed_integer(range(Inside(min = -7, max = 100)))", v: "signed_integer", attr: "range(Inside(min = -7, max = 100))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "i8", run: run_8 },
    Cfg { name: "i8 signed_integer(range(Inside(min = -7, max = 100, inclusive = true)))", v: "signed_integer", attr: "range(Inside(min = -7, max = 100, inclusive = true))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "i8", run: run_9 },
    Cfg { name: "i8 signed_integer(range(Inside(min = -7, max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = -7, max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", "100"), ("inclusive", "false")], ty: "i8", run: run_10 },
    Cfg { name: "i8 signed_integer(range(Inside(min = 42, max = 42)))", v: "signed_integer", attr: "range(Inside(min = 42, max = 42))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "i8", run: run_11 },
    Cfg { name: "i8 signed_integer(range(Inside(min = 42, max = 43, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "i8", run: run_12 },
    Cfg { name: "i8 signed_integer(range(Outside(min = -7)))", v: "signed_integer", attr: "range(Outside(min = -7))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", ""), ("inclusive", "true")], ty: "i8", run: run_13 },
    Cfg { name: "i8 signed_integer(range(Outside(min = -7, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = -7, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", ""), ("inclusive", "false")], ty: "i8", run: run_14 },
    Cfg { name: "i8 signed_integer(range(Outside(max = 100)))", v: "signed_integer", attr: "range(Outside(max = 100))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "i8", run: run_15 },
    Cfg { name: "i8 signed_integer(range(Outside(max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Outside(max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "i8", run: run_16 },
    Cfg { name: "i8 signed_integer(range(Outside(min = -7, max = 100)))", v: "signed_integer", attr: "range(Outside(min = -7, max = 100))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "i8", run: run_17 },
    Cfg { name: "i8 signed_integer(range(Outside(min = -7, max = 100, inclusive = true)))", v: "signed_integer", attr: "range(Outside(min = -7, max = 100, inclusive = true))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "i8", run: run_18 },
    Cfg { name: "i8 signed_integer(range(Outside(min = -7, max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = -7, max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", "100"), ("inclusive", "false")], ty: "i8", run: run_19 },
    Cfg { name: "i8 signed_integer(range(Outside(min = 42, max = 42)))", v: "signed_integer", attr: "range(Outside(min = 42, max = 42))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "i8", run: run_20 },
    Cfg { name: "i8 signed_integer(range(Outside(min = 42, max = 43, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "i8", run: run_21 },
    Cfg { name: "i8 signed_integer(range(Inside(min = -128, max = -126)))", v: "signed_integer", attr: "range(Inside(min = -128, max = -126))", opts: &[("kind", "Inside"), ("min", "-128"), ("max", "-126"), ("inclusive", "true")], ty: "i8", run: run_22 },
    Cfg { name: "i8 signed_integer(range(Inside(min = 125, max = 127)))", v: "signed_integer", attr: "range(Inside(min = 125, max = 127))", opts: &[("kind", "Inside"), ("min", "125"), ("max", "127"), ("inclusive", "true")], ty: "i8", run: run_23 },
    Cfg { name: "i8 signed_integer(range(Inside(min = 124, max = 127, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = 124, max = 127, inclusive = false))", opts: &[("kind", "Inside"), ("min", "124"), ("max", "127"), ("inclusive", "false")], ty: "i8", run: run_24 },
    Cfg { name: "i8 signed_integer(range(Inside(min = -128, max = 127)))", v: "signed_integer", attr: "range(Inside(min = -128, max = 127))", opts: &[("kind", "Inside"), ("min", "-128"), ("max", "127"), ("inclusive", "true")], ty: "i8", run: run_25 },
    Cfg { name: "i8 signed_integer(range(Inside(min = 127)))", v: "signed_integer", attr: "range(Inside(min = 127))", opts: &[("kind", "Inside"), ("min", "127"), ("max", ""), ("inclusive", "true")], ty: "i8", run: run_26 },
    Cfg { name: "i8 signed_integer(range(Inside(max = -128)))", v: "signed_integer", attr: "range(Inside(max = -128))", opts: &[("kind", "Inside"), ("min", ""), ("max", "-128"), ("inclusive", "true")], ty: "i8", run: run_27 },
    Cfg { name: "i8 signed_integer(range(Inside(min = 127, max = 127)))", v: "signed_integer", attr: "range(Inside(min = 127, max = 127))", opts: &[("kind", "Inside"), ("min", "127"), ("max", "127"), ("inclusive", "true")], ty: "i8", run: run_28 },
    Cfg { name: "i8 signed_integer(range(Inside(3..=77)))", v: "signed_integer", attr: "range(Inside(3..=77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "i8", run: run_29 },
    Cfg { name: "i8 signed_integer(range(Inside(3..77)))", v: "signed_integer", attr: "range(Inside(3..77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "i8", run: run_30 },
    Cfg { name: "i8 signed_integer(range(Inside(..=77)))", v: "signed_integer", attr: "range(Inside(..=77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "i8", run: run_31 },
    Cfg { name: "i8 signed_integer(range(Inside(..77)))", v: "signed_integer", attr: "range(Inside(..77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "i8", run: run_32 },
    Cfg { name: "i8 signed_integer(range(Inside(3..)))", v: "signed_integer", attr: "range(Inside(3..))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "i8", run: run_33 },
    Cfg { name: "i8 signed_integer(range(Outside(min = -128, max = -126)))", v: "signed_integer", attr: "range(Outside(min = -128, max = -126))", opts: &[("kind", "Outside"), ("min", "-128"), ("max", "-126"), ("inclusive", "true")], ty: "i8", run: run_34 },
    Cfg { name: "i8 signed_integer(range(Outside(min = 125, max = 127)))", v: "signed_integer", attr: "range(Outside(min = 125, max = 127))", opts: &[("kind", "Outside"), ("min", "125"), ("max", "127"), ("inclusive", "true")], ty: "i8", run: run_35 },
    Cfg { name: "i8 signed_integer(range(Outside(min = 124, max = 127, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = 124, max = 127, inclusive = false))", opts: &[("kind", "Outside"), ("min", "124"), ("max", "127"), ("inclusive", "false")], ty: "i8", run: run_36 },
    Cfg { name: "i8 signed_integer(range(Outside(min = -128, max = 127)))", v: "signed_integer", attr: "range(Outside(min = -128, max = 127))", opts: &[("kind", "Outside"), ("min", "-128"), ("max", "127"), ("inclusive", "true")], ty: "i8", run: run_37 },
    Cfg { name: "i8 signed_integer(range(Outside(min = 127)))", v: "signed_integer", attr: "range(Outside(min = 127))", opts: &[("kind", "Outside"), ("min", "127"), ("max", ""), ("inclusive", "true")], ty: "i8", run: run_38 },
    Cfg { name: "i8 signed_integer(range(Outside(max = -128)))", v: "signed_integer", attr: "range(Outside(max = -128))", opts: &[("kind", "Outside"), ("min", ""), ("max", "-128"), ("inclusive", "true")], ty: "i8", run: run_39 },
    Cfg { name: "i8 signed_integer(range(Outside(min = 127, max = 127)))", v: "signed_integer", attr: "range(Outside(min = 127, max = 127))", opts: &[("kind", "Outside"), ("min", "127"), ("max", "127"), ("inclusive", "true")], ty: "i8", run: run_40 },
    Cfg { name: "i8 signed_integer(range(Outside(3..=77)))", v: "signed_integer", attr: "range(Outside(3..=77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "i8", run: run_41 },
    Cfg { name: "i8 signed_integer(range(Outside(3..77)))", v: "signed_integer", attr: "range(Outside(3..77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "i8", run: run_42 },
    Cfg { name: "i8 signed_integer(range(Outside(..=77)))", v: "signed_integer", attr: "range(Outside(..=77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "i8", run: run_43 },
    Cfg { name: "i8 signed_integer(range(Outside(..77)))", v: "signed_integer", attr: "range(Outside(..77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "i8", run: run_44 },
    Cfg { name: "i8 signed_integer(range(Outside(3..)))", v: "signed_integer", attr: "range(Outside(3..))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "i8", run: run_45 },
    Cfg { name: "i8 signed_integer(range(Inside(min = -100, max = -50)))", v: "signed_integer", attr: "range(Inside(min = -100, max = -50))", opts: &[("kind", "Inside"), ("min", "-100"), ("max", "-50"), ("inclusive", "true")], ty: "i8", run: run_46 },
    Cfg { name: "i8 signed_integer(range(Outside(min = -100, max = -50, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = -100, max = -50, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-100"), ("max", "-50"), ("inclusive", "false")], ty: "i8", run: run_47 },
    Cfg { name: "i8 signed_integer(range(Outside(min = 0, max = 0)))", v: "signed_integer", attr: "range(Outside(min = 0, max = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "0"), ("inclusive", "true")], ty: "i8", run: run_48 },
    Cfg { name: "i16 signed_integer()", v: "signed_integer", attr: "", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "i16", run: run_49 },
    Cfg { name: "i16 signed_integer(range(Unlimited))", v: "signed_integer", attr: "range(Unlimited)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "i16", run: run_50 },
    Cfg { name: "i16 signed_integer(range(Inside()))", v: "signed_integer", attr: "range(Inside())", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "i16", run: run_51 },
    Cfg { name: "i16 signed_integer(range(Outside()))", v: "signed_integer", attr: "range(Outside())", opts: &[("kind", "Outside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "i16", run: run_52 },
    Cfg { name: "i16 signed_integer(range(Inside(min = -7)))", v: "signed_integer", attr: "range(Inside(min = -7))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", ""), ("inclusive", "true")], ty: "i16", run: run_53 },
    Cfg { name: "i16 signed_integer(range(Inside(min = -7, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = -7, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", ""), ("inclusive", "false")], ty: "i16", run: run_54 },
    Cfg { name: "i16 signed_integer(range(Inside(max = 100)))", v: "signed_integer", attr: "range(Inside(max = 100))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "i16", run: run_55 },
    Cfg { name: "i16 signed_integer(range(Inside(max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Inside(max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "i16", run: run_56 },
    Cfg { name: "i16 signed_integer(range(Inside(min = -7, max = 100)))", v: "signed_integer", attr: "range(Inside(min = -7, max = 100))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "i16", run: run_57 },
    Cfg { name: "i16 signed_integer(range(Inside(min = -7, max = 100, inclusive = true)))", v: "signed_integer", attr: "range(Inside(min = -7, max = 100, inclusive = true))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "i16", run: run_58 },
    Cfg { name: "i16 signed_integer(range(Inside(min = -7, max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = -7, max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", "100"), ("inclusive", "false")], ty: "i16", run: run_59 },
    Cfg { name: "i16 signed_integer(range(Inside(min = 42, max = 42)))", v: "signed_integer", attr: "range(Inside(min = 42, max = 42))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "i16", run: run_60 },
    Cfg { name: "i16 signed_integer(range(Inside(min = 42, max = 43, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "i16", run: run_61 },
    Cfg { name: "i16 signed_integer(range(Outside(min = -7)))", v: "signed_integer", attr: "range(Outside(min = -7))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", ""), ("inclusive", "true")], ty: "i16", run: run_62 },
    Cfg { name: "i16 signed_integer(range(Outside(min = -7, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = -7, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", ""), ("inclusive", "false")], ty: "i16", run: run_63 },
    Cfg { name: "i16 signed_integer(range(Outside(max = 100)))", v: "signed_integer", attr: "range(Outside(max = 100))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "i16", run: run_64 },
    Cfg { name: "i16 signed_integer(range(Outside(max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Outside(max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "i16", run: run_65 },
    Cfg { name: "i16 signed_integer(range(Outside(min = -7, max = 100)))", v: "signed_integer", attr: "range(Outside(min = -7, max = 100))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "i16", run: run_66 },
    Cfg { name: "i16 signed_integer(range(Outside(min = -7, max = 100, inclusive = true)))", v: "signed_integer", attr: "range(Outside(min = -7, max = 100, inclusive = true))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "i16", run: run_67 },
    Cfg { name: "i16 signed_integer(range(Outside(min = -7, max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = -7, max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", "100"), ("inclusive", "false")], ty: "i16", run: run_68 },
    Cfg { name: "i16 signed_integer(range(Outside(min = 42, max = 42)))", v: "signed_integer", attr: "range(Outside(min = 42, max = 42))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "i16", run: run_69 },
    Cfg { name: "i16 signed_integer(range(Outside(min = 42, max = 43, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "i16", run: run_70 },
    Cfg { name: "i16 signed_integer(range(Inside(min = -32768, max = -32766)))", v: "signed_integer", attr: "range(Inside(min = -32768, max = -32766))", opts: &[("kind", "Inside"), ("min", "-32768"), ("max", "-32766"), ("inclusive", "true")], ty: "i16", run: run_71 },
    Cfg { name: "i16 signed_integer(range(Inside(min = 32765, max = 32767)))", v: "signed_integer", attr: "range(Inside(min = 32765, max = 32767))", opts: &[("kind", "Inside"), ("min", "32765"), ("max", "32767"), ("inclusive", "true")], ty: "i16", run: run_72 },
    Cfg { name: "i16 signed_integer(range(Inside(min = 32764, max = 32767, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = 32764, max = 32767, inclusive = false))", opts: &[("kind", "Inside"), ("min", "32764"), ("max", "32767"), ("inclusive", "false")], ty: "i16", run: run_73 },
    Cfg { name: "i16 signed_integer(range(Inside(min = -32768, max = 32767)))", v: "signed_integer", attr: "range(Inside(min = -32768, max = 32767))", opts: &[("kind", "Inside"), ("min", "-32768"), ("max", "32767"), ("inclusive", "true")], ty: "i16", run: run_74 },
    Cfg { name: "i16 signed_integer(range(Inside(min = 32767)))", v: "signed_integer", attr: "range(Inside(min = 32767))", opts: &[("kind", "Inside"), ("min", "32767"), ("max", ""), ("inclusive", "true")], ty: "i16", run: run_75 },
    Cfg { name: "i16 signed_integer(range(Inside(max = -32768)))", v: "signed_integer", attr: "range(Inside(max = -32768))", opts: &[("kind", "Inside"), ("min", ""), ("max", "-32768"), ("inclusive", "true")], ty: "i16", run: run_76 },
    Cfg { name: "i16 signed_integer(range(Inside(min = 32767, max = 32767)))", v: "signed_integer", attr: "range(Inside(min = 32767, max = 32767))", opts: &[("kind", "Inside"), ("min", "32767"), ("max", "32767"), ("inclusive", "true")], ty: "i16", run: run_77 },
    Cfg { name: "i16 signed_integer(range(Inside(3..=77)))", v: "signed_integer", attr: "range(Inside(3..=77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "i16", run: run_78 },
    Cfg { name: "i16 signed_integer(range(Inside(3..77)))", v: "signed_integer", attr: "range(Inside(3..77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "i16", run: run_79 },
    Cfg { name: "i16 signed_integer(range(Inside(..=77)))", v: "signed_integer", attr: "range(Inside(..=77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "i16", run: run_80 },
    Cfg { name: "i16 signed_integer(range(Inside(..77)))", v: "signed_integer", attr: "range(Inside(..77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "i16", run: run_81 },
    Cfg { name: "i16 signed_integer(range(Inside(3..)))", v: "signed_integer", attr: "range(Inside(3..))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "i16", run: run_82 },
    Cfg { name: "i16 signed_integer(range(Outside(min = -32768, max = -32766)))", v: "signed_integer", attr: "range(Outside(min = -32768, max = -32766))", opts: &[("kind", "Outside"), ("min", "-32768"), ("max", "-32766"), ("inclusive", "true")], ty: "i16", run: run_83 },
    Cfg { name: "i16 signed_integer(range(Outside(min = 32765, max = 32767)))", v: "signed_integer", attr: "range(Outside(min = 32765, max = 32767))", opts: &[("kind", "Outside"), ("min", "32765"), ("max", "32767"), ("inclusive", "true")], ty: "i16", run: run_84 },
    Cfg { name: "i16 signed_integer(range(Outside(min = 32764, max = 32767, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = 32764, max = 32767, inclusive = false))", opts: &[("kind", "Outside"), ("min", "32764"), ("max", "32767"), ("inclusive", "false")], ty: "i16", run: run_85 },
    Cfg { name: "i16 signed_integer(range(Outside(min = -32768, max = 32767)))", v: "signed_integer", attr: "range(Outside(min = -32768, max = 32767))", opts: &[("kind", "Outside"), ("min", "-32768"), ("max", "32767"), ("inclusive", "true")], ty: "i16", run: run_86 },
    Cfg { name: "i16 signed_integer(range(Outside(min = 32767)))", v: "signed_integer", attr: "range(Outside(min = 32767))", opts: &[("kind", "Outside"), ("min", "32767"), ("max", ""), ("inclusive", "true")], ty: "i16", run: run_87 },
    Cfg { name: "i16 signed_integer(range(Outside(max = -32768)))", v: "signed_integer", attr: "range(Outside(max = -32768))", opts: &[("kind", "Outside"), ("min", ""), ("max", "-32768"), ("inclusive", "true")], ty: "i16", run: run_88 },
    Cfg { name: "i16 signed_integer(range(Outside(min = 32767, max = 32767)))", v: "signed_integer", attr: "range(Outside(min = 32767, max = 32767))", opts: &[("kind", "Outside"), ("min", "32767"), ("max", "32767"), ("inclusive", "true")], ty: "i16", run: run_89 },
    Cfg { name: "i16 signed_integer(range(Outside(3..=77)))", v: "signed_integer", attr: "range(Outside(3..=77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "i16", run: run_90 },
    Cfg { name: "i16 signed_integer(range(Outside(3..77)))", v: "signed_integer", attr: "range(Outside(3..77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "i16", run: run_91 },
    Cfg { name: "i16 signed_integer(range(Outside(..=77)))", v: "signed_integer", attr: "range(Outside(..=77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "i16", run: run_92 },
    Cfg { name: "i16 signed_integer(range(Outside(..77)))", v: "signed_integer", attr: "range(Outside(..77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "i16", run: run_93 },
    Cfg { name: "i16 signed_integer(range(Outside(3..)))", v: "signed_integer", attr: "range(Outside(3..))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "i16", run: run_94 },
    Cfg { name: "i16 signed_integer(range(Inside(min = -100, max = -50)))", v: "signed_integer", attr: "range(Inside(min = -100, max = -50))", opts: &[("kind", "Inside"), ("min", "-100"), ("max", "-50"), ("inclusive", "true")], ty: "i16", run: run_95 },
    Cfg { name: "i16 signed_integer(range(Outside(min = -100, max = -50, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = -100, max = -50, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-100"), ("max", "-50"), ("inclusive", "false")], ty: "i16", run: run_96 },
    Cfg { name: "i16 signed_integer(range(Outside(min = 0, max = 0)))", v: "signed_integer", attr: "range(Outside(min = 0, max = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "0"), ("inclusive", "true")], ty: "i16", run: run_97 },
    Cfg { name: "i32 signed_integer()", v: "signed_integer", attr: "", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "i32", run: run_98 },
    Cfg { name: "i32 signed_integer(range(Unlimited))", v: "signed_integer", attr: "range(Unlimited)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "i32", run: run_99 },
    Cfg { name: "i32 signed_integer(range(Inside()))", v: "signed_integer", attr: "range(Inside())", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "i32", run: run_100 },
    Cfg { name: "i32 signed_integer(range(Outside()))", v: "signed_integer", attr: "range(Outside())", opts: &[("kind", "Outside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "i32", run: run_101 },
    Cfg { name: "i32 signed_integer(range(Inside(min = -7)))", v: "signed_integer", attr: "range(Inside(min = -7))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", ""), ("inclusive", "true")], ty: "i32", run: run_102 },
    Cfg { name: "i32 signed_integer(range(Inside(min = -7, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = -7, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", ""), ("inclusive", "false")], ty: "i32", run: run_103 },
    Cfg { name: "i32 signed_integer(range(Inside(max = 100)))", v: "signed_integer", attr: "range(Inside(max = 100))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "i32", run: run_104 },
    Cfg { name: "i32 signed_integer(range(Inside(max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Inside(max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "i32", run: run_105 },
    Cfg { name: "i32 signed_integer(range(Inside(min = -7, max = 100)))", v: "signed_integer", attr: "range(Inside(min = -7, max = 100))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "i32", run: run_106 },
    Cfg { name: "i32 signed_integer(range(Inside(min = -7, max = 100, inclusive = true)))", v: "signed_integer", attr: "range(Inside(min = -7, max = 100, inclusive = true))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "i32", run: run_107 },
    Cfg { name: "i32 signed_integer(range(Inside(min = -7, max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = -7, max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", "100"), ("inclusive", "false")], ty: "i32", run: run_108 },
    Cfg { name: "i32 signed_integer(range(Inside(min = 42, max = 42)))", v: "signed_integer", attr: "range(Inside(min = 42, max = 42))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "i32", run: run_109 },
    Cfg { name: "i32 signed_integer(range(Inside(min = 42, max = 43, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "i32", run: run_110 },
    Cfg { name: "i32 signed_integer(range(Outside(min = -7)))", v: "signed_integer", attr: "range(Outside(min = -7))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", ""), ("inclusive", "true")], ty: "i32", run: run_111 },
    Cfg { name: "i32 signed_integer(range(Outside(min = -7, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = -7, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", ""), ("inclusive", "false")], ty: "i32", run: run_112 },
    Cfg { name: "i32 signed_integer(range(Outside(max = 100)))", v: "signed_integer", attr: "range(Outside(max = 100))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "i32", run: run_113 },
    Cfg { name: "i32 signed_integer(range(Outside(max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Outside(max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "i32", run: run_114 },
    Cfg { name: "i32 signed_integer(range(Outside(min = -7, max = 100)))", v: "signed_integer", attr: "range(Outside(min = -7, max = 100))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "i32", run: run_115 },
    Cfg { name: "i32 signed_integer(range(Outside(min = -7, max = 100, inclusive = true)))", v: "signed_integer", attr: "range(Outside(min = -7, max = 100, inclusive = true))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "i32", run: run_116 },
    Cfg { name: "i32 signed_integer(range(Outside(min = -7, max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = -7, max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", "100"), ("inclusive", "false")], ty: "i32", run: run_117 },
    Cfg { name: "i32 signed_integer(range(Outside(min = 42, max = 42)))", v: "signed_integer", attr: "range(Outside(min = 42, max = 42))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "i32", run: run_118 },
    Cfg { name: "i32 signed_integer(range(Outside(min = 42, max = 43, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "i32", run: run_119 },
    Cfg { name: "i32 signed_integer(range(Inside(min = -2147483648, max = -2147483646)))", v: "signed_integer", attr: "range(Inside(min = -2147483648, max = -2147483646))", opts: &[("kind", "Inside"), ("min", "-2147483648"), ("max", "-2147483646"), ("inclusive", "true")], ty: "i32", run: run_120 },
    Cfg { name: "i32 signed_integer(range(Inside(min = 2147483645, max = 2147483647)))", v: "signed_integer", attr: "range(Inside(min = 2147483645, max = 2147483647))", opts: &[("kind", "Inside"), ("min", "2147483645"), ("max", "2147483647"), ("inclusive", "true")], ty: "i32", run: run_121 },
    Cfg { name: "i32 signed_integer(range(Inside(min = 2147483644, max = 2147483647, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = 2147483644, max = 2147483647, inclusive = false))", opts: &[("kind", "Inside"), ("min", "2147483644"), ("max", "2147483647"), ("inclusive", "false")], ty: "i32", run: run_122 },
    Cfg { name: "i32 signed_integer(range(Inside(min = -2147483648, max = 2147483647)))", v: "signed_integer", attr: "range(Inside(min = -2147483648, max = 2147483647))", opts: &[("kind", "Inside"), ("min", "-2147483648"), ("max", "2147483647"), ("inclusive", "true")], ty: "i32", run: run_123 },
    Cfg { name: "i32 signed_integer(range(Inside(min = 2147483647)))", v: "signed_integer", attr: "range(Inside(min = 2147483647))", opts: &[("kind", "Inside"), ("min", "2147483647"), ("max", ""), ("inclusive", "true")], ty: "i32", run: run_124 },
    Cfg { name: "i32 signed_integer(range(Inside(max = -2147483648)))", v: "signed_integer", attr: "range(Inside(max = -2147483648))", opts: &[("kind", "Inside"), ("min", ""), ("max", "-2147483648"), ("inclusive", "true")], ty: "i32", run: run_125 },
    Cfg { name: "i32 signed_integer(range(Inside(min = 2147483647, max = 2147483647)))", v: "signed_integer", attr: "range(Inside(min = 2147483647, max = 2147483647))", opts: &[("kind", "Inside"), ("min", "2147483647"), ("max", "2147483647"), ("inclusive", "true")], ty: "i32", run: run_126 },
    Cfg { name: "i32 signed_integer(range(Inside(3..=77)))", v: "signed_integer", attr: "range(Inside(3..=77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "i32", run: run_127 },
    Cfg { name: "i32 signed_integer(range(Inside(3..77)))", v: "signed_integer", attr: "range(Inside(3..77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "i32", run: run_128 },
    Cfg { name: "i32 signed_integer(range(Inside(..=77)))", v: "signed_integer", attr: "range(Inside(..=77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "i32", run: run_129 },
    Cfg { name: "i32 signed_integer(range(Inside(..77)))", v: "signed_integer", attr: "range(Inside(..77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "i32", run: run_130 },
    Cfg { name: "i32 signed_integer(range(Inside(3..)))", v: "signed_integer", attr: "range(Inside(3..))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "i32", run: run_131 },
    Cfg { name: "i32 signed_integer(range(Outside(min = -2147483648, max = -2147483646)))", v: "signed_integer", attr: "range(Outside(min = -2147483648, max = -2147483646))", opts: &[("kind", "Outside"), ("min", "-2147483648"), ("max", "-2147483646"), ("inclusive", "true")], ty: "i32", run: run_132 },
    Cfg { name: "i32 signed_integer(range(Outside(min = 2147483645, max = 2147483647)))", v: "signed_integer", attr: "range(Outside(min = 2147483645, max = 2147483647))", opts: &[("kind", "Outside"), ("min", "2147483645"), ("max", "2147483647"), ("inclusive", "true")], ty: "i32", run: run_133 },
    Cfg { name: "i32 signed_integer(range(Outside(min = 2147483644, max = 2147483647, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = 2147483644, max = 2147483647, inclusive = false))", opts: &[("kind", "Outside"), ("min", "2147483644"), ("max", "2147483647"), ("inclusive", "false")], ty: "i32", run: run_134 },
    Cfg { name: "i32 signed_integer(range(Outside(min = -2147483648, max = 2147483647)))", v: "signed_integer", attr: "range(Outside(min = -2147483648, max = 2147483647))", opts: &[("kind", "Outside"), ("min", "-2147483648"), ("max", "2147483647"), ("inclusive", "true")], ty: "i32", run: run_135 },
    Cfg { name: "i32 signed_integer(range(Outside(min = 2147483647)))", v: "signed_integer", attr: "range(Outside(min = 2147483647))", opts: &[("kind", "Outside"), ("min", "2147483647"), ("max", ""), ("inclusive", "true")], ty: "i32", run: run_136 },
    Cfg { name: "i32 signed_integer(range(Outside(max = -2147483648)))", v: "signed_integer", attr: "range(Outside(max = -2147483648))", opts: &[("kind", "Outside"), ("min", ""), ("max", "-2147483648"), ("inclusive", "true")], ty: "i32", run: run_137 },
    Cfg { name: "i32 signed_integer(range(Outside(min = 2147483647, max = 2147483647)))", v: "signed_integer", attr: "range(Outside(min = 2147483647, max = 2147483647))", opts: &[("kind", "Outside"), ("min", "2147483647"), ("max", "2147483647"), ("inclusive", "true")], ty: "i32", run: run_138 },
    Cfg { name: "i32 signed_integer(range(Outside(3..=77)))", v: "signed_integer", attr: "range(Outside(3..=77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "i32", run: run_139 },
    Cfg { name: "i32 signed_integer(range(Outside(3..77)))", v: "signed_integer", attr: "range(Outside(3..77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "i32", run: run_140 },
    Cfg { name: "i32 signed_integer(range(Outside(..=77)))", v: "signed_integer", attr: "range(Outside(..=77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "i32", run: run_141 },
    Cfg { name: "i32 signed_integer(range(Outside(..77)))", v: "signed_integer", attr: "range(Outside(..77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "i32", run: run_142 },
    Cfg { name: "i32 signed_integer(range(Outside(3..)))", v: "signed_integer", attr: "range(Outside(3..))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "i32", run: run_143 },
    Cfg { name: "i32 signed_integer(range(Inside(min = -100, max = -50)))", v: "signed_integer", attr: "range(Inside(min = -100, max = -50))", opts: &[("kind", "Inside"), ("min", "-100"), ("max", "-50"), ("inclusive", "true")], ty: "i32", run: run_144 },
    Cfg { name: "i32 signed_integer(range(Outside(min = -100, max = -50, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = -100, max = -50, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-100"), ("max", "-50"), ("inclusive", "false")], ty: "i32", run: run_145 },
    Cfg { name: "i32 signed_integer(range(Outside(min = 0, max = 0)))", v: "signed_integer", attr: "range(Outside(min = 0, max = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "0"), ("inclusive", "true")], ty: "i32", run: run_146 },
    Cfg { name: "i64 signed_integer()", v: "signed_integer", attr: "", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "i64", run: run_147 },
    Cfg { name: "i64 signed_integer(range(Unlimited))", v: "signed_integer", attr: "range(Unlimited)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "i64", run: run_148 },
    Cfg { name: "i64 signed_integer(range(Inside()))", v: "signed_integer", attr: "range(Inside())", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "i64", run: run_149 },
    Cfg { name: "i64 signed_integer(range(Outside()))", v: "signed_integer", attr: "range(Outside())", opts: &[("kind", "Outside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "i64", run: run_150 },
    Cfg { name: "i64 signed_integer(range(Inside(min = -7)))", v: "signed_integer", attr: "range(Inside(min = -7))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", ""), ("inclusive", "true")], ty: "i64", run: run_151 },
    Cfg { name: "i64 signed_integer(range(Inside(min = -7, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = -7, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", ""), ("inclusive", "false")], ty: "i64", run: run_152 },
    Cfg { name: "i64 signed_integer(range(Inside(max = 100)))", v: "signed_integer", attr: "range(Inside(max = 100))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "i64", run: run_153 },
    Cfg { name: "i64 signed_integer(range(Inside(max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Inside(max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "i64", run: run_154 },
    Cfg { name: "i64 signed_integer(range(Inside(min = -7, max = 100)))", v: "signed_integer", attr: "range(Inside(min = -7, max = 100))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "i64", run: run_155 },
    Cfg { name: "i64 signed_integer(range(Inside(min = -7, max = 100, inclusive = true)))", v: "signed_integer", attr: "range(Inside(min = -7, max = 100, inclusive = true))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "i64", run: run_156 },
    Cfg { name: "i64 signed_integer(range(Inside(min = -7, max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = -7, max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", "100"), ("inclusive", "false")], ty: "i64", run: run_157 },
    Cfg { name: "i64 signed_integer(range(Inside(min = 42, max = 42)))", v: "signed_integer", attr: "range(Inside(min = 42, max = 42))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "i64", run: run_158 },
    Cfg { name: "i64 signed_integer(range(Inside(min = 42, max = 43, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "i64", run: run_159 },
    Cfg { name: "i64 signed_integer(range(Outside(min = -7)))", v: "signed_integer", attr: "range(Outside(min = -7))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", ""), ("inclusive", "true")], ty: "i64", run: run_160 },
    Cfg { name: "i64 signed_integer(range(Outside(min = -7, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = -7, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", ""), ("inclusive", "false")], ty: "i64", run: run_161 },
    Cfg { name: "i64 signed_integer(range(Outside(max = 100)))", v: "signed_integer", attr: "range(Outside(max = 100))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "i64", run: run_162 },
    Cfg { name: "i64 signed_integer(range(Outside(max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Outside(max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "i64", run: run_163 },
    Cfg { name: "i64 signed_integer(range(Outside(min = -7, max = 100)))", v: "signed_integer", attr: "range(Outside(min = -7, max = 100))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "i64", run: run_164 },
    Cfg { name: "i64 signed_integer(range(Outside(min = -7, max = 100, inclusive = true)))", v: "signed_integer", attr: "range(Outside(min = -7, max = 100, inclusive = true))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "i64", run: run_165 },
    Cfg { name: "i64 signed_integer(range(Outside(min = -7, max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = -7, max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", "100"), ("inclusive", "false")], ty: "i64", run: run_166 },
    Cfg { name: "i64 signed_integer(range(Outside(min = 42, max = 42)))", v: "signed_integer", attr: "range(Outside(min = 42, max = 42))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "i64", run: run_167 },
    Cfg { name: "i64 signed_integer(range(Outside(min = 42, max = 43, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "i64", run: run_168 },
    Cfg { name: "i64 signed_integer(range(Inside(min = -9223372036854775808, max = -9223372036854775806)))", v: "signed_integer", attr: "range(Inside(min = -9223372036854775808, max = -9223372036854775806))", opts: &[("kind", "Inside"), ("min", "-9223372036854775808"), ("max", "-9223372036854775806"), ("inclusive", "true")], ty: "i64", run: run_169 },
    Cfg { name: "i64 signed_integer(range(Inside(min = 9223372036854775805, max = 9223372036854775807)))", v: "signed_integer", attr: "range(Inside(min = 9223372036854775805, max = 9223372036854775807))", opts: &[("kind", "Inside"), ("min", "9223372036854775805"), ("max", "9223372036854775807"), ("inclusive", "true")], ty: "i64", run: run_170 },
    Cfg { name: "i64 signed_integer(range(Inside(min = 9223372036854775804, max = 9223372036854775807, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = 9223372036854775804, max = 9223372036854775807, inclusive = false))", opts: &[("kind", "Inside"), ("min", "9223372036854775804"), ("max", "9223372036854775807"), ("inclusive", "false")], ty: "i64", run: run_171 },
    Cfg { name: "i64 signed_integer(range(Inside(min = -9223372036854775808, max = 9223372036854775807)))", v: "signed_integer", attr: "range(Inside(min = -9223372036854775808, max = 9223372036854775807))", opts: &[("kind", "Inside"), ("min", "-9223372036854775808"), ("max", "9223372036854775807"), ("inclusive", "true")], ty: "i64", run: run_172 },
    Cfg { name: "i64 signed_integer(range(Inside(min = 9223372036854775807)))", v: "signed_integer", attr: "range(Inside(min = 9223372036854775807))", opts: &[("kind", "Inside"), ("min", "9223372036854775807"), ("max", ""), ("inclusive", "true")], ty: "i64", run: run_173 },
    Cfg { name: "i64 signed_integer(range(Inside(max = -9223372036854775808)))", v: "signed_integer", attr: "range(Inside(max = -9223372036854775808))", opts: &[("kind", "Inside"), ("min", ""), ("max", "-9223372036854775808"), ("inclusive", "true")], ty: "i64", run: run_174 },
    Cfg { name: "i64 signed_integer(range(Inside(min = 9223372036854775807, max = 9223372036854775807)))", v: "signed_integer", attr: "range(Inside(min = 9223372036854775807, max = 9223372036854775807))", opts: &[("kind", "Inside"), ("min", "9223372036854775807"), ("max", "9223372036854775807"), ("inclusive", "true")], ty: "i64", run: run_175 },
    Cfg { name: "i64 signed_integer(range(Inside(3..=77)))", v: "signed_integer", attr: "range(Inside(3..=77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "i64", run: run_176 },
    Cfg { name: "i64 signed_integer(range(Inside(3..77)))", v: "signed_integer", attr: "range(Inside(3..77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "i64", run: run_177 },
    Cfg { name: "i64 signed_integer(range(Inside(..=77)))", v: "signed_integer", attr: "range(Inside(..=77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "i64", run: run_178 },
    Cfg { name: "i64 signed_integer(range(Inside(..77)))", v: "signed_integer", attr: "range(Inside(..77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "i64", run: run_179 },
    Cfg { name: "i64 signed_integer(range(Inside(3..)))", v: "signed_integer", attr: "range(Inside(3..))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "i64", run: run_180 },
    Cfg { name: "i64 signed_integer(range(Outside(min = -9223372036854775808, max = -9223372036854775806)))", v: "signed_integer", attr: "range(Outside(min = -9223372036854775808, max = -9223372036854775806))", opts: &[("kind", "Outside"), ("min", "-9223372036854775808"), ("max", "-9223372036854775806"), ("inclusive", "true")], ty: "i64", run: run_181 },
    Cfg { name: "i64 signed_integer(range(Outside(min = 9223372036854775805, max = 9223372036854775807)))", v: "signed_integer", attr: "range(Outside(min = 9223372036854775805, max = 9223372036854775807))", opts: &[("kind", "Outside"), ("min", "9223372036854775805"), ("max", "9223372036854775807"), ("inclusive", "true")], ty: "i64", run: run_182 },
    Cfg { name: "i64 signed_integer(range(Outside(min = 9223372036854775804, max = 9223372036854775807, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = 9223372036854775804, max = 9223372036854775807, inclusive = false))", opts: &[("kind", "Outside"), ("min", "9223372036854775804"), ("max", "9223372036854775807"), ("inclusive", "false")], ty: "i64", run: run_183 },
    Cfg { name: "i64 signed_integer(range(Outside(min = -9223372036854775808, max = 9223372036854775807)))", v: "signed_integer", attr: "range(Outside(min = -9223372036854775808, max = 9223372036854775807))", opts: &[("kind", "Outside"), ("min", "-9223372036854775808"), ("max", "9223372036854775807"), ("inclusive", "true")], ty: "i64", run: run_184 },
    Cfg { name: "i64 signed_integer(range(Outside(min = 9223372036854775807)))", v: "signed_integer", attr: "range(Outside(min = 9223372036854775807))", opts: &[("kind", "Outside"), ("min", "9223372036854775807"), ("max", ""), ("inclusive", "true")], ty: "i64", run: run_185 },
    Cfg { name: "i64 signed_integer(range(Outside(max = -9223372036854775808)))", v: "signed_integer", attr: "range(Outside(max = -9223372036854775808))", opts: &[("kind", "Outside"), ("min", ""), ("max", "-9223372036854775808"), ("inclusive", "true")], ty: "i64", run: run_186 },
    Cfg { name: "i64 signed_integer(range(Outside(min = 9223372036854775807, max = 9223372036854775807)))", v: "signed_integer", attr: "range(Outside(min = 9223372036854775807, max = 9223372036854775807))", opts: &[("kind", "Outside"), ("min", "9223372036854775807"), ("max", "9223372036854775807"), ("inclusive", "true")], ty: "i64", run: run_187 },
    Cfg { name: "i64 signed_integer(range(Outside(3..=77)))", v: "signed_integer", attr: "range(Outside(3..=77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "i64", run: run_188 },
    Cfg { name: "i64 signed_integer(range(Outside(3..77)))", v: "signed_integer", attr: "range(Outside(3..77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "i64", run: run_189 },
    Cfg { name: "i64 signed_integer(range(Outside(..=77)))", v: "signed_integer", attr: "range(Outside(..=77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "i64", run: run_190 },
    Cfg { name: "i64 signed_integer(range(Outside(..77)))", v: "signed_integer", attr: "range(Outside(..77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "i64", run: run_191 },
    Cfg { name: "i64 signed_integer(range(Outside(3..)))", v: "signed_integer", attr: "range(Outside(3..))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "i64", run: run_192 },
    Cfg { name: "i64 signed_integer(range(Inside(min = -100, max = -50)))", v: "signed_integer", attr: "range(Inside(min = -100, max = -50))", opts: &[("kind", "Inside"), ("min", "-100"), ("max", "-50"), ("inclusive", "true")], ty: "i64", run: run_193 },
    Cfg { name: "i64 signed_integer(range(Outside(min = -100, max = -50, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = -100, max = -50, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-100"), ("max", "-50"), ("inclusive", "false")], ty: "i64", run: run_194 },
    Cfg { name: "i64 signed_integer(range(Outside(min = 0, max = 0)))", v: "signed_integer", attr: "range(Outside(min = 0, max = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "0"), ("inclusive", "true")], ty: "i64", run: run_195 },
    Cfg { name: "i128 signed_integer()", v: "signed_integer", attr: "", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "i128", run: run_196 },
    Cfg { name: "i128 signed_integer(range(Unlimited))", v: "signed_integer", attr: "range(Unlimited)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "i128", run: run_197 },
    Cfg { name: "i128 signed_integer(range(Inside()))", v: "signed_integer", attr: "range(Inside())", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "i128", run: run_198 },
    Cfg { name: "i128 signed_integer(range(Outside()))", v: "signed_integer", attr: "range(Outside())", opts: &[("kind", "Outside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "i128", run: run_199 },
    Cfg { name: "i128 signed_integer(range(Inside(min = -7)))", v: "signed_integer", attr: "range(Inside(min = -7))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", ""), ("inclusive", "true")], ty: "i128", run: run_200 },
    Cfg { name: "i128 signed_integer(range(Inside(min = -7, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = -7, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", ""), ("inclusive", "false")], ty: "i128", run: run_201 },
    Cfg { name: "i128 signed_integer(range(Inside(max = 100)))", v: "signed_integer", attr: "range(Inside(max = 100))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "i128", run: run_202 },
    Cfg { name: "i128 signed_integer(range(Inside(max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Inside(max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "i128", run: run_203 },
    Cfg { name: "i128 signed_integer(range(Inside(min = -7, max = 100)))", v: "signed_integer", attr: "range(Inside(min = -7, max = 100))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "i128", run: run_204 },
    Cfg { name: "i128 signed_integer(range(Inside(min = -7, max = 100, inclusive = true)))", v: "signed_integer", attr: "range(Inside(min = -7, max = 100, inclusive = true))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "i128", run: run_205 },
    Cfg { name: "i128 signed_integer(range(Inside(min = -7, max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = -7, max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", "100"), ("inclusive", "false")], ty: "i128", run: run_206 },
    Cfg { name: "i128 signed_integer(range(Inside(min = 42, max = 42)))", v: "signed_integer", attr: "range(Inside(min = 42, max = 42))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "i128", run: run_207 },
    Cfg { name: "i128 signed_integer(range(Inside(min = 42, max = 43, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "i128", run: run_208 },
    Cfg { name: "i128 signed_integer(range(Outside(min = -7)))", v: "signed_integer", attr: "range(Outside(min = -7))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", ""), ("inclusive", "true")], ty: "i128", run: run_209 },
    Cfg { name: "i128 signed_integer(range(Outside(min = -7, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = -7, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", ""), ("inclusive", "false")], ty: "i128", run: run_210 },
    Cfg { name: "i128 signed_integer(range(Outside(max = 100)))", v: "signed_integer", attr: "range(Outside(max = 100))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "i128", run: run_211 },
    Cfg { name: "i128 signed_integer(range(Outside(max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Outside(max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "i128", run: run_212 },
    Cfg { name: "i128 signed_integer(range(Outside(min = -7, max = 100)))", v: "signed_integer", attr: "range(Outside(min = -7, max = 100))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "i128", run: run_213 },
    Cfg { name: "i128 signed_integer(range(Outside(min = -7, max = 100, inclusive = true)))", v: "signed_integer", attr: "range(Outside(min = -7, max = 100, inclusive = true))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "i128", run: run_214 },
    Cfg { name: "i128 signed_integer(range(Outside(min = -7, max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = -7, max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", "100"), ("inclusive", "false")], ty: "i128", run: run_215 },
    Cfg { name: "i128 signed_integer(range(Outside(min = 42, max = 42)))", v: "signed_integer", attr: "range(Outside(min = 42, max = 42))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "i128", run: run_216 },
    Cfg { name: "i128 signed_integer(range(Outside(min = 42, max = 43, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "i128", run: run_217 },
    Cfg { name: "i128 signed_integer(range(Inside(min = -170141183460469231731687303715884105728, max = -170141183460469231731687303715884105726)))", v: "signed_integer", attr: "range(Inside(min = -170141183460469231731687303715884105728, max = -170141183460469231731687303715884105726))", opts: &[("kind", "Inside"), ("min", "-170141183460469231731687303715884105728"), ("max", "-170141183460469231731687303715884105726"), ("inclusive", "true")], ty: "i128", run: run_218 },
    Cfg { name: "i128 signed_integer(range(Inside(min = 170141183460469231731687303715884105725, max = 170141183460469231731687303715884105727)))", v: "signed_integer", attr: "range(Inside(min = 170141183460469231731687303715884105725, max = 170141183460469231731687303715884105727))", opts: &[("kind", "Inside"), ("min", "170141183460469231731687303715884105725"), ("max", "170141183460469231731687303715884105727"), ("inclusive", "true")], ty: "i128", run: run_219 },
    Cfg { name: "i128 signed_integer(range(Inside(min = 170141183460469231731687303715884105724, max = 170141183460469231731687303715884105727, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = 170141183460469231731687303715884105724, max = 170141183460469231731687303715884105727, inclusive = false))", opts: &[("kind", "Inside"), ("min", "170141183460469231731687303715884105724"), ("max", "170141183460469231731687303715884105727"), ("inclusive", "false")], ty: "i128", run: run_220 },
    Cfg { name: "i128 signed_integer(range(Inside(min = -170141183460469231731687303715884105728, max = 170141183460469231731687303715884105727)))", v: "signed_integer", attr: "range(Inside(min = -170141183460469231731687303715884105728, max = 170141183460469231731687303715884105727))", opts: &[("kind", "Inside"), ("min", "-170141183460469231731687303715884105728"), ("max", "170141183460469231731687303715884105727"), ("inclusive", "true")], ty: "i128", run: run_221 },
    Cfg { name: "i128 signed_integer(range(Inside(min = 170141183460469231731687303715884105727)))", v: "signed_integer", attr: "range(Inside(min = 170141183460469231731687303715884105727))", opts: &[("kind", "Inside"), ("min", "170141183460469231731687303715884105727"), ("max", ""), ("inclusive", "true")], ty: "i128", run: run_222 },
    Cfg { name: "i128 signed_integer(range(Inside(max = -170141183460469231731687303715884105728)))", v: "signed_integer", attr: "range(Inside(max = -170141183460469231731687303715884105728))", opts: &[("kind", "Inside"), ("min", ""), ("max", "-170141183460469231731687303715884105728"), ("inclusive", "true")], ty: "i128", run: run_223 },
    Cfg { name: "i128 signed_integer(range(Inside(min = 170141183460469231731687303715884105727, max = 170141183460469231731687303715884105727)))", v: "signed_integer", attr: "range(Inside(min = 170141183460469231731687303715884105727, max = 170141183460469231731687303715884105727))", opts: &[("kind", "Inside"), ("min", "170141183460469231731687303715884105727"), ("max", "170141183460469231731687303715884105727"), ("inclusive", "true")], ty: "i128", run: run_224 },
    Cfg { name: "i128 signed_integer(range(Inside(3..=77)))", v: "signed_integer", attr: "range(Inside(3..=77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "i128", run: run_225 },
    Cfg { name: "i128 signed_integer(range(Inside(3..77)))", v: "signed_integer", attr: "range(Inside(3..77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "i128", run: run_226 },
    Cfg { name: "i128 signed_integer(range(Inside(..=77)))", v: "signed_integer", attr: "range(Inside(..=77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "i128", run: run_227 },
    Cfg { name: "i128 signed_integer(range(Inside(..77)))", v: "signed_integer", attr: "range(Inside(..77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "i128", run: run_228 },
    Cfg { name: "i128 signed_integer(range(Inside(3..)))", v: "signed_integer", attr: "range(Inside(3..))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "i128", run: run_229 },
    Cfg { name: "i128 signed_integer(range(Outside(min = -170141183460469231731687303715884105728, max = -170141183460469231731687303715884105726)))", v: "signed_integer", attr: "range(Outside(min = -170141183460469231731687303715884105728, max = -170141183460469231731687303715884105726))", opts: &[("kind", "Outside"), ("min", "-170141183460469231731687303715884105728"), ("max", "-170141183460469231731687303715884105726"), ("inclusive", "true")], ty: "i128", run: run_230 },
    Cfg { name: "i128 signed_integer(range(Outside(min = 170141183460469231731687303715884105725, max = 170141183460469231731687303715884105727)))", v: "signed_integer", attr: "range(Outside(min = 170141183460469231731687303715884105725, max = 170141183460469231731687303715884105727))", opts: &[("kind", "Outside"), ("min", "170141183460469231731687303715884105725"), ("max", "170141183460469231731687303715884105727"), ("inclusive", "true")], ty: "i128", run: run_231 },
    Cfg { name: "i128 signed_integer(range(Outside(min = 170141183460469231731687303715884105724, max = 170141183460469231731687303715884105727, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = 170141183460469231731687303715884105724, max = 170141183460469231731687303715884105727, inclusive = false))", opts: &[("kind", "Outside"), ("min", "170141183460469231731687303715884105724"), ("max", "170141183460469231731687303715884105727"), ("inclusive", "false")], ty: "i128", run: run_232 },
    Cfg { name: "i128 signed_integer(range(Outside(min = -170141183460469231731687303715884105728, max = 170141183460469231731687303715884105727)))", v: "signed_integer", attr: "range(Outside(min = -170141183460469231731687303715884105728, max = 170141183460469231731687303715884105727))", opts: &[("kind", "Outside"), ("min", "-170141183460469231731687303715884105728"), ("max", "170141183460469231731687303715884105727"), ("inclusive", "true")], ty: "i128", run: run_233 },
    Cfg { name: "i128 signed_integer(range(Outside(min = 170141183460469231731687303715884105727)))", v: "signed_integer", attr: "range(Outside(min = 170141183460469231731687303715884105727))", opts: &[("kind", "Outside"), ("min", "170141183460469231731687303715884105727"), ("max", ""), ("inclusive", "true")], ty: "i128", run: run_234 },
    Cfg { name: "i128 signed_integer(range(Outside(max = -170141183460469231731687303715884105728)))", v: "signed_integer", attr: "range(Outside(max = -170141183460469231731687303715884105728))", opts: &[("kind", "Outside"), ("min", ""), ("max", "-170141183460469231731687303715884105728"), ("inclusive", "true")], ty: "i128", run: run_235 },
    Cfg { name: "i128 signed_integer(range(Outside(min = 170141183460469231731687303715884105727, max = 170141183460469231731687303715884105727)))", v: "signed_integer", attr: "range(Outside(min = 170141183460469231731687303715884105727, max = 170141183460469231731687303715884105727))", opts: &[("kind", "Outside"), ("min", "170141183460469231731687303715884105727"), ("max", "170141183460469231731687303715884105727"), ("inclusive", "true")], ty: "i128", run: run_236 },
    Cfg { name: "i128 signed_integer(range(Outside(3..=77)))", v: "signed_integer", attr: "range(Outside(3..=77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "i128", run: run_237 },
    Cfg { name: "i128 signed_integer(range(Outside(3..77)))", v: "signed_integer", attr: "range(Outside(3..77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "i128", run: run_238 },
    Cfg { name: "i128 signed_integer(range(Outside(..=77)))", v: "signed_integer", attr: "range(Outside(..=77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "i128", run: run_239 },
    Cfg { name: "i128 signed_integer(range(Outside(..77)))", v: "signed_integer", attr: "range(Outside(..77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "i128", run: run_240 },
    Cfg { name: "i128 signed_integer(range(Outside(3..)))", v: "signed_integer", attr: "range(Outside(3..))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "i128", run: run_241 },
    Cfg { name: "i128 signed_integer(range(Inside(min = -100, max = -50)))", v: "signed_integer", attr: "range(Inside(min = -100, max = -50))", opts: &[("kind", "Inside"), ("min", "-100"), ("max", "-50"), ("inclusive", "true")], ty: "i128", run: run_242 },
    Cfg { name: "i128 signed_integer(range(Outside(min = -100, max = -50, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = -100, max = -50, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-100"), ("max", "-50"), ("inclusive", "false")], ty: "i128", run: run_243 },
    Cfg { name: "i128 signed_integer(range(Outside(min = 0, max = 0)))", v: "signed_integer", attr: "range(Outside(min = 0, max = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "0"), ("inclusive", "true")], ty: "i128", run: run_244 },
    Cfg { name: "isize signed_integer()", v: "signed_integer", attr: "", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "isize", run: run_245 },
    Cfg { name: "isize signed_integer(range(Unlimited))", v: "signed_integer", attr: "range(Unlimited)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "isize", run: run_246 },
    Cfg { name: "isize signed_integer(range(Inside()))", v: "signed_integer", attr: "range(Inside())", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "isize", run: run_247 },
    Cfg { name: "isize signed_integer(range(Outside()))", v: "signed_integer", attr: "range(Outside())", opts: &[("kind", "Outside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "isize", run: run_248 },
    Cfg { name: "isize signed_integer(range(Inside(min = -7)))", v: "signed_integer", attr: "range(Inside(min = -7))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", ""), ("inclusive", "true")], ty: "isize", run: run_249 },
    Cfg { name: "isize signed_integer(range(Inside(min = -7, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = -7, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", ""), ("inclusive", "false")], ty: "isize", run: run_250 },
    Cfg { name: "isize signed_integer(range(Inside(max = 100)))", v: "signed_integer", attr: "range(Inside(max = 100))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "isize", run: run_251 },
    Cfg { name: "isize signed_integer(range(Inside(max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Inside(max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "isize", run: run_252 },
    Cfg { name: "isize signed_integer(range(Inside(min = -7, max = 100)))", v: "signed_integer", attr: "range(Inside(min = -7, max = 100))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "isize", run: run_253 },
    Cfg { name: "isize signed_integer(range(Inside(min = -7, max = 100, inclusive = true)))", v: "signed_integer", attr: "range(Inside(min = -7, max = 100, inclusive = true))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "isize", run: run_254 },
    Cfg { name: "isize signed_integer(range(Inside(min = -7, max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = -7, max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", "-7"), ("max", "100"), ("inclusive", "false")], ty: "isize", run: run_255 },
    Cfg { name: "isize signed_integer(range(Inside(min = 42, max = 42)))", v: "signed_integer", attr: "range(Inside(min = 42, max = 42))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "isize", run: run_256 },
    Cfg { name: "isize signed_integer(range(Inside(min = 42, max = 43, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "isize", run: run_257 },
    Cfg { name: "isize signed_integer(range(Outside(min = -7)))", v: "signed_integer", attr: "range(Outside(min = -7))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", ""), ("inclusive", "true")], ty: "isize", run: run_258 },
    Cfg { name: "isize signed_integer(range(Outside(min = -7, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = -7, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", ""), ("inclusive", "false")], ty: "isize", run: run_259 },
    Cfg { name: "isize signed_integer(range(Outside(max = 100)))", v: "signed_integer", attr: "range(Outside(max = 100))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "isize", run: run_260 },
    Cfg { name: "isize signed_integer(range(Outside(max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Outside(max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "isize", run: run_261 },
    Cfg { name: "isize signed_integer(range(Outside(min = -7, max = 100)))", v: "signed_integer", attr: "range(Outside(min = -7, max = 100))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "isize", run: run_262 },
    Cfg { name: "isize signed_integer(range(Outside(min = -7, max = 100, inclusive = true)))", v: "signed_integer", attr: "range(Outside(min = -7, max = 100, inclusive = true))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", "100"), ("inclusive", "true")], ty: "isize", run: run_263 },
    Cfg { name: "isize signed_integer(range(Outside(min = -7, max = 100, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = -7, max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-7"), ("max", "100"), ("inclusive", "false")], ty: "isize", run: run_264 },
    Cfg { name: "isize signed_integer(range(Outside(min = 42, max = 42)))", v: "signed_integer", attr: "range(Outside(min = 42, max = 42))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "isize", run: run_265 },
    Cfg { name: "isize signed_integer(range(Outside(min = 42, max = 43, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "isize", run: run_266 },
    Cfg { name: "isize signed_integer(range(Inside(min = -9223372036854775808, max = -9223372036854775806)))", v: "signed_integer", attr: "range(Inside(min = -9223372036854775808, max = -9223372036854775806))", opts: &[("kind", "Inside"), ("min", "-9223372036854775808"), ("max", "-9223372036854775806"), ("inclusive", "true")], ty: "isize", run: run_267 },
    Cfg { name: "isize signed_integer(range(Inside(min = 9223372036854775805, max = 9223372036854775807)))", v: "signed_integer", attr: "range(Inside(min = 9223372036854775805, max = 9223372036854775807))", opts: &[("kind", "Inside"), ("min", "9223372036854775805"), ("max", "9223372036854775807"), ("inclusive", "true")], ty: "isize", run: run_268 },
    Cfg { name: "isize signed_integer(range(Inside(min = 9223372036854775804, max = 9223372036854775807, inclusive = false)))", v: "signed_integer", attr: "range(Inside(min = 9223372036854775804, max = 9223372036854775807, inclusive = false))", opts: &[("kind", "Inside"), ("min", "9223372036854775804"), ("max", "9223372036854775807"), ("inclusive", "false")], ty: "isize", run: run_269 },
    Cfg { name: "isize signed_integer(range(Inside(min = -9223372036854775808, max = 9223372036854775807)))", v: "signed_integer", attr: "range(Inside(min = -9223372036854775808, max = 9223372036854775807))", opts: &[("kind", "Inside"), ("min", "-9223372036854775808"), ("max", "9223372036854775807"), ("inclusive", "true")], ty: "isize", run: run_270 },
    Cfg { name: "isize signed_integer(range(Inside(min = 9223372036854775807)))", v: "signed_integer", attr: "range(Inside(min = 9223372036854775807))", opts: &[("kind", "Inside"), ("min", "9223372036854775807"), ("max", ""), ("inclusive", "true")], ty: "isize", run: run_271 },
    Cfg { name: "isize signed_integer(range(Inside(max = -9223372036854775808)))", v: "signed_integer", attr: "range(Inside(max = -9223372036854775808))", opts: &[("kind", "Inside"), ("min", ""), ("max", "-9223372036854775808"), ("inclusive", "true")], ty: "isize", run: run_272 },
    Cfg { name: "isize signed_integer(range(Inside(min = 9223372036854775807, max = 9223372036854775807)))", v: "signed_integer", attr: "range(Inside(min = 9223372036854775807, max = 9223372036854775807))", opts: &[("kind", "Inside"), ("min", "9223372036854775807"), ("max", "9223372036854775807"), ("inclusive", "true")], ty: "isize", run: run_273 },
    Cfg { name: "isize signed_integer(range(Inside(3..=77)))", v: "signed_integer", attr: "range(Inside(3..=77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "isize", run: run_274 },
    Cfg { name: "isize signed_integer(range(Inside(3..77)))", v: "signed_integer", attr: "range(Inside(3..77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "isize", run: run_275 },
    Cfg { name: "isize signed_integer(range(Inside(..=77)))", v: "signed_integer", attr: "range(Inside(..=77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "isize", run: run_276 },
    Cfg { name: "isize signed_integer(range(Inside(..77)))", v: "signed_integer", attr: "range(Inside(..77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "isize", run: run_277 },
    Cfg { name: "isize signed_integer(range(Inside(3..)))", v: "signed_integer", attr: "range(Inside(3..))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "isize", run: run_278 },
    Cfg { name: "isize signed_integer(range(Outside(min = -9223372036854775808, max = -9223372036854775806)))", v: "signed_integer", attr: "range(Outside(min = -9223372036854775808, max = -9223372036854775806))", opts: &[("kind", "Outside"), ("min", "-9223372036854775808"), ("max", "-9223372036854775806"), ("inclusive", "true")], ty: "isize", run: run_279 },
    Cfg { name: "isize signed_integer(range(Outside(min = 9223372036854775805, max = 9223372036854775807)))", v: "signed_integer", attr: "range(Outside(min = 9223372036854775805, max = 9223372036854775807))", opts: &[("kind", "Outside"), ("min", "9223372036854775805"), ("max", "9223372036854775807"), ("inclusive", "true")], ty: "isize", run: run_280 },
    Cfg { name: "isize signed_integer(range(Outside(min = 9223372036854775804, max = 9223372036854775807, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = 9223372036854775804, max = 9223372036854775807, inclusive = false))", opts: &[("kind", "Outside"), ("min", "9223372036854775804"), ("max", "9223372036854775807"), ("inclusive", "false")], ty: "isize", run: run_281 },
    Cfg { name: "isize signed_integer(range(Outside(min = -9223372036854775808, max = 9223372036854775807)))", v: "signed_integer", attr: "range(Outside(min = -9223372036854775808, max = 9223372036854775807))", opts: &[("kind", "Outside"), ("min", "-9223372036854775808"), ("max", "9223372036854775807"), ("inclusive", "true")], ty: "isize", run: run_282 },
    Cfg { name: "isize signed_integer(range(Outside(min = 9223372036854775807)))", v: "signed_integer", attr: "range(Outside(min = 9223372036854775807))", opts: &[("kind", "Outside"), ("min", "9223372036854775807"), ("max", ""), ("inclusive", "true")], ty: "isize", run: run_283 },
    Cfg { name: "isize signed_integer(range(Outside(max = -9223372036854775808)))", v: "signed_integer", attr: "range(Outside(max = -9223372036854775808))", opts: &[("kind", "Outside"), ("min", ""), ("max", "-9223372036854775808"), ("inclusive", "true")], ty: "isize", run: run_284 },
    Cfg { name: "isize signed_integer(range(Outside(min = 9223372036854775807, max = 9223372036854775807)))", v: "signed_integer", attr: "range(Outside(min = 9223372036854775807, max = 9223372036854775807))", opts: &[("kind", "Outside"), ("min", "9223372036854775807"), ("max", "9223372036854775807"), ("inclusive", "true")], ty: "isize", run: run_285 },
    Cfg { name: "isize signed_integer(range(Outside(3..=77)))", v: "signed_integer", attr: "range(Outside(3..=77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "isize", run: run_286 },
    Cfg { name: "isize signed_integer(range(Outside(3..77)))", v: "signed_integer", attr: "range(Outside(3..77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "isize", run: run_287 },
    Cfg { name: "isize signed_integer(range(Outside(..=77)))", v: "signed_integer", attr: "range(Outside(..=77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "isize", run: run_288 },
    Cfg { name: "isize signed_integer(range(Outside(..77)))", v: "signed_integer", attr: "range(Outside(..77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "isize", run: run_289 },
    Cfg { name: "isize signed_integer(range(Outside(3..)))", v: "signed_integer", attr: "range(Outside(3..))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "isize", run: run_290 },
    Cfg { name: "isize signed_integer(range(Inside(min = -100, max = -50)))", v: "signed_integer", attr: "range(Inside(min = -100, max = -50))", opts: &[("kind", "Inside"), ("min", "-100"), ("max", "-50"), ("inclusive", "true")], ty: "isize", run: run_291 },
    Cfg { name: "isize signed_integer(range(Outside(min = -100, max = -50, inclusive = false)))", v: "signed_integer", attr: "range(Outside(min = -100, max = -50, inclusive = false))", opts: &[("kind", "Outside"), ("min", "-100"), ("max", "-50"), ("inclusive", "false")], ty: "isize", run: run_292 },
    Cfg { name: "isize signed_integer(range(Outside(min = 0, max = 0)))", v: "signed_integer", attr: "range(Outside(min = 0, max = 0))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "0"), ("inclusive", "true")], ty: "isize", run: run_293 },
    Cfg { name: "u8 unsigned_integer()", v: "unsigned_integer", attr: "", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "u8", run: run_294 },
    Cfg { name: "u8 unsigned_integer(range(Unlimited))", v: "unsigned_integer", attr: "range(Unlimited)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "u8", run: run_295 },
    Cfg { name: "u8 unsigned_integer(range(Inside()))", v: "unsigned_integer", attr: "range(Inside())", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "u8", run: run_296 },
    Cfg { name: "u8 unsigned_integer(range(Outside()))", v: "unsigned_integer", attr: "range(Outside())", opts: &[("kind", "Outside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "u8", run: run_297 },
    Cfg { name: "u8 unsigned_integer(range(Inside(min = 3)))", v: "unsigned_integer", attr: "range(Inside(min = 3))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "u8", run: run_298 },
    Cfg { name: "u8 unsigned_integer(range(Inside(min = 3, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 3, inclusive = false))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "false")], ty: "u8", run: run_299 },
    Cfg { name: "u8 unsigned_integer(range(Inside(max = 100)))", v: "unsigned_integer", attr: "range(Inside(max = 100))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "u8", run: run_300 },
    Cfg { name: "u8 unsigned_integer(range(Inside(max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "u8", run: run_301 },
    Cfg { name: "u8 unsigned_integer(range(Inside(min = 3, max = 100)))", v: "unsigned_integer", attr: "range(Inside(min = 3, max = 100))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "u8", run: run_302 },
    Cfg { name: "u8 unsigned_integer(range(Inside(min = 3, max = 100, inclusive = true)))", v: "unsigned_integer", attr: "range(Inside(min = 3, max = 100, inclusive = true))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "u8", run: run_303 },
    Cfg { name: "u8 unsigned_integer(range(Inside(min = 3, max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 3, max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "100"), ("inclusive", "false")], ty: "u8", run: run_304 },
    Cfg { name: "u8 unsigned_integer(range(Inside(min = 42, max = 42)))", v: "unsigned_integer", attr: "range(Inside(min = 42, max = 42))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "u8", run: run_305 },
    Cfg { name: "u8 unsigned_integer(range(Inside(min = 42, max = 43, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "u8", run: run_306 },
    Cfg { name: "u8 unsigned_integer(range(Outside(min = 3)))", v: "unsigned_integer", attr: "range(Outside(min = 3))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "u8", run: run_307 },
    Cfg { name: "u8 unsigned_integer(range(Outside(min = 3, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 3, inclusive = false))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "false")], ty: "u8", run: run_308 },
    Cfg { name: "u8 unsigned_integer(range(Outside(max = 100)))", v: "unsigned_integer", attr: "range(Outside(max = 100))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "u8", run: run_309 },
    Cfg { name: "u8 unsigned_integer(range(Outside(max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "u8", run: run_310 },
    Cfg { name: "u8 unsigned_integer(range(Outside(min = 3, max = 100)))", v: "unsigned_integer", attr: "range(Outside(min = 3, max = 100))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "u8", run: run_311 },
    Cfg { name: "u8 unsigned_integer(range(Outside(min = 3, max = 100, inclusive = true)))", v: "unsigned_integer", attr: "range(Outside(min = 3, max = 100, inclusive = true))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "u8", run: run_312 },
    Cfg { name: "u8 unsigned_integer(range(Outside(min = 3, max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 3, max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "100"), ("inclusive", "false")], ty: "u8", run: run_313 },
    Cfg { name: "u8 unsigned_integer(range(Outside(min = 42, max = 42)))", v: "unsigned_integer", attr: "range(Outside(min = 42, max = 42))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "u8", run: run_314 },
    Cfg { name: "u8 unsigned_integer(range(Outside(min = 42, max = 43, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "u8", run: run_315 },
    Cfg { name: "u8 unsigned_integer(range(Inside(min = 0, max = 2)))", v: "unsigned_integer", attr: "range(Inside(min = 0, max = 2))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "2"), ("inclusive", "true")], ty: "u8", run: run_316 },
    Cfg { name: "u8 unsigned_integer(range(Inside(min = 253, max = 255)))", v: "unsigned_integer", attr: "range(Inside(min = 253, max = 255))", opts: &[("kind", "Inside"), ("min", "253"), ("max", "255"), ("inclusive", "true")], ty: "u8", run: run_317 },
    Cfg { name: "u8 unsigned_integer(range(Inside(min = 252, max = 255, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 252, max = 255, inclusive = false))", opts: &[("kind", "Inside"), ("min", "252"), ("max", "255"), ("inclusive", "false")], ty: "u8", run: run_318 },
    Cfg { name: "u8 unsigned_integer(range(Inside(min = 0, max = 255)))", v: "unsigned_integer", attr: "range(Inside(min = 0, max = 255))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "255"), ("inclusive", "true")], ty: "u8", run: run_319 },
    Cfg { name: "u8 unsigned_integer(range(Inside(min = 255)))", v: "unsigned_integer", attr: "range(Inside(min = 255))", opts: &[("kind", "Inside"), ("min", "255"), ("max", ""), ("inclusive", "true")], ty: "u8", run: run_320 },
    Cfg { name: "u8 unsigned_integer(range(Inside(max = 0)))", v: "unsigned_integer", attr: "range(Inside(max = 0))", opts: &[("kind", "Inside"), ("min", ""), ("max", "0"), ("inclusive", "true")], ty: "u8", run: run_321 },
    Cfg { name: "u8 unsigned_integer(range(Inside(min = 255, max = 255)))", v: "unsigned_integer", attr: "range(Inside(min = 255, max = 255))", opts: &[("kind", "Inside"), ("min", "255"), ("max", "255"), ("inclusive", "true")], ty: "u8", run: run_322 },
    Cfg { name: "u8 unsigned_integer(range(Inside(3..=77)))", v: "unsigned_integer", attr: "range(Inside(3..=77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "u8", run: run_323 },
    Cfg { name: "u8 unsigned_integer(range(Inside(3..77)))", v: "unsigned_integer", attr: "range(Inside(3..77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "u8", run: run_324 },
    Cfg { name: "u8 unsigned_integer(range(Inside(..=77)))", v: "unsigned_integer", attr: "range(Inside(..=77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "u8", run: run_325 },
    Cfg { name: "u8 unsigned_integer(range(Inside(..77)))", v: "unsigned_integer", attr: "range(Inside(..77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "u8", run: run_326 },
    Cfg { name: "u8 unsigned_integer(range(Inside(3..)))", v: "unsigned_integer", attr: "range(Inside(3..))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "u8", run: run_327 },
    Cfg { name: "u8 unsigned_integer(range(Outside(min = 0, max = 2)))", v: "unsigned_integer", attr: "range(Outside(min = 0, max = 2))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "2"), ("inclusive", "true")], ty: "u8", run: run_328 },
    Cfg { name: "u8 unsigned_integer(range(Outside(min = 253, max = 255)))", v: "unsigned_integer", attr: "range(Outside(min = 253, max = 255))", opts: &[("kind", "Outside"), ("min", "253"), ("max", "255"), ("inclusive", "true")], ty: "u8", run: run_329 },
    Cfg { name: "u8 unsigned_integer(range(Outside(min = 252, max = 255, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 252, max = 255, inclusive = false))", opts: &[("kind", "Outside"), ("min", "252"), ("max", "255"), ("inclusive", "false")], ty: "u8", run: run_330 },
    Cfg { name: "u8 unsigned_integer(range(Outside(min = 0, max = 255)))", v: "unsigned_integer", attr: "range(Outside(min = 0, max = 255))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "255"), ("inclusive", "true")], ty: "u8", run: run_331 },
    Cfg { name: "u8 unsigned_integer(range(Outside(min = 255)))", v: "unsigned_integer", attr: "range(Outside(min = 255))", opts: &[("kind", "Outside"), ("min", "255"), ("max", ""), ("inclusive", "true")], ty: "u8", run: run_332 },
    Cfg { name: "u8 unsigned_integer(range(Outside(max = 0)))", v: "unsigned_integer", attr: "range(Outside(max = 0))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0"), ("inclusive", "true")], ty: "u8", run: run_333 },
    Cfg { name: "u8 unsigned_integer(range(Outside(min = 255, max = 255)))", v: "unsigned_integer", attr: "range(Outside(min = 255, max = 255))", opts: &[("kind", "Outside"), ("min", "255"), ("max", "255"), ("inclusive", "true")], ty: "u8", run: run_334 },
    Cfg { name: "u8 unsigned_integer(range(Outside(3..=77)))", v: "unsigned_integer", attr: "range(Outside(3..=77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "u8", run: run_335 },
    Cfg { name: "u8 unsigned_integer(range(Outside(3..77)))", v: "unsigned_integer", attr: "range(Outside(3..77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "u8", run: run_336 },
    Cfg { name: "u8 unsigned_integer(range(Outside(..=77)))", v: "unsigned_integer", attr: "range(Outside(..=77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "u8", run: run_337 },
    Cfg { name: "u8 unsigned_integer(range(Outside(..77)))", v: "unsigned_integer", attr: "range(Outside(..77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "u8", run: run_338 },
    Cfg { name: "u8 unsigned_integer(range(Outside(3..)))", v: "unsigned_integer", attr: "range(Outside(3..))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "u8", run: run_339 },
    Cfg { name: "u16 unsigned_integer()", v: "unsigned_integer", attr: "", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "u16", run: run_340 },
    Cfg { name: "u16 unsigned_integer(range(Unlimited))", v: "unsigned_integer", attr: "range(Unlimited)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "u16", run: run_341 },
    Cfg { name: "u16 unsigned_integer(range(Inside()))", v: "unsigned_integer", attr: "range(Inside())", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "u16", run: run_342 },
    Cfg { name: "u16 unsigned_integer(range(Outside()))", v: "unsigned_integer", attr: "range(Outside())", opts: &[("kind", "Outside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "u16", run: run_343 },
    Cfg { name: "u16 unsigned_integer(range(Inside(min = 3)))", v: "unsigned_integer", attr: "range(Inside(min = 3))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "u16", run: run_344 },
    Cfg { name: "u16 unsigned_integer(range(Inside(min = 3, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 3, inclusive = false))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "false")], ty: "u16", run: run_345 },
    Cfg { name: "u16 unsigned_integer(range(Inside(max = 100)))", v: "unsigned_integer", attr: "range(Inside(max = 100))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "u16", run: run_346 },
    Cfg { name: "u16 unsigned_integer(range(Inside(max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "u16", run: run_347 },
    Cfg { name: "u16 unsigned_integer(range(Inside(min = 3, max = 100)))", v: "unsigned_integer", attr: "range(Inside(min = 3, max = 100))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "u16", run: run_348 },
    Cfg { name: "u16 unsigned_integer(range(Inside(min = 3, max = 100, inclusive = true)))", v: "unsigned_integer", attr: "range(Inside(min = 3, max = 100, inclusive = true))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "u16", run: run_349 },
    Cfg { name: "u16 unsigned_integer(range(Inside(min = 3, max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 3, max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "100"), ("inclusive", "false")], ty: "u16", run: run_350 },
    Cfg { name: "u16 unsigned_integer(range(Inside(min = 42, max = 42)))", v: "unsigned_integer", attr: "range(Inside(min = 42, max = 42))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "u16", run: run_351 },
    Cfg { name: "u16 unsigned_integer(range(Inside(min = 42, max = 43, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "u16", run: run_352 },
    Cfg { name: "u16 unsigned_integer(range(Outside(min = 3)))", v: "unsigned_integer", attr: "range(Outside(min = 3))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "u16", run: run_353 },
    Cfg { name: "u16 unsigned_integer(range(Outside(min = 3, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 3, inclusive = false))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "false")], ty: "u16", run: run_354 },
    Cfg { name: "u16 unsigned_integer(range(Outside(max = 100)))", v: "unsigned_integer", attr: "range(Outside(max = 100))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "u16", run: run_355 },
    Cfg { name: "u16 unsigned_integer(range(Outside(max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "u16", run: run_356 },
    Cfg { name: "u16 unsigned_integer(range(Outside(min = 3, max = 100)))", v: "unsigned_integer", attr: "range(Outside(min = 3, max = 100))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "u16", run: run_357 },
    Cfg { name: "u16 unsigned_integer(range(Outside(min = 3, max = 100, inclusive = true)))", v: "unsigned_integer", attr: "range(Outside(min = 3, max = 100, inclusive = true))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "u16", run: run_358 },
    Cfg { name: "u16 unsigned_integer(range(Outside(min = 3, max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 3, max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "100"), ("inclusive", "false")], ty: "u16", run: run_359 },
    Cfg { name: "u16 unsigned_integer(range(Outside(min = 42, max = 42)))", v: "unsigned_integer", attr: "range(Outside(min = 42, max = 42))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "u16", run: run_360 },
    Cfg { name: "u16 unsigned_integer(range(Outside(min = 42, max = 43, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "u16", run: run_361 },
    Cfg { name: "u16 unsigned_integer(range(Inside(min = 0, max = 2)))", v: "unsigned_integer", attr: "range(Inside(min = 0, max = 2))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "2"), ("inclusive", "true")], ty: "u16", run: run_362 },
    Cfg { name: "u16 unsigned_integer(range(Inside(min = 65533, max = 65535)))", v: "unsigned_integer", attr: "range(Inside(min = 65533, max = 65535))", opts: &[("kind", "Inside"), ("min", "65533"), ("max", "65535"), ("inclusive", "true")], ty: "u16", run: run_363 },
    Cfg { name: "u16 unsigned_integer(range(Inside(min = 65532, max = 65535, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 65532, max = 65535, inclusive = false))", opts: &[("kind", "Inside"), ("min", "65532"), ("max", "65535"), ("inclusive", "false")], ty: "u16", run: run_364 },
    Cfg { name: "u16 unsigned_integer(range(Inside(min = 0, max = 65535)))", v: "unsigned_integer", attr: "range(Inside(min = 0, max = 65535))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "65535"), ("inclusive", "true")], ty: "u16", run: run_365 },
    Cfg { name: "u16 unsigned_integer(range(Inside(min = 65535)))", v: "unsigned_integer", attr: "range(Inside(min = 65535))", opts: &[("kind", "Inside"), ("min", "65535"), ("max", ""), ("inclusive", "true")], ty: "u16", run: run_366 },
    Cfg { name: "u16 unsigned_integer(range(Inside(max = 0)))", v: "unsigned_integer", attr: "range(Inside(max = 0))", opts: &[("kind", "Inside"), ("min", ""), ("max", "0"), ("inclusive", "true")], ty: "u16", run: run_367 },
    Cfg { name: "u16 unsigned_integer(range(Inside(min = 65535, max = 65535)))", v: "unsigned_integer", attr: "range(Inside(min = 65535, max = 65535))", opts: &[("kind", "Inside"), ("min", "65535"), ("max", "65535"), ("inclusive", "true")], ty: "u16", run: run_368 },
    Cfg { name: "u16 unsigned_integer(range(Inside(3..=77)))", v: "unsigned_integer", attr: "range(Inside(3..=77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "u16", run: run_369 },
    Cfg { name: "u16 unsigned_integer(range(Inside(3..77)))", v: "unsigned_integer", attr: "range(Inside(3..77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "u16", run: run_370 },
    Cfg { name: "u16 unsigned_integer(range(Inside(..=77)))", v: "unsigned_integer", attr: "range(Inside(..=77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "u16", run: run_371 },
    Cfg { name: "u16 unsigned_integer(range(Inside(..77)))", v: "unsigned_integer", attr: "range(Inside(..77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "u16", run: run_372 },
    Cfg { name: "u16 unsigned_integer(range(Inside(3..)))", v: "unsigned_integer", attr: "range(Inside(3..))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "u16", run: run_373 },
    Cfg { name: "u16 unsigned_integer(range(Outside(min = 0, max = 2)))", v: "unsigned_integer", attr: "range(Outside(min = 0, max = 2))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "2"), ("inclusive", "true")], ty: "u16", run: run_374 },
    Cfg { name: "u16 unsigned_integer(range(Outside(min = 65533, max = 65535)))", v: "unsigned_integer", attr: "range(Outside(min = 65533, max = 65535))", opts: &[("kind", "Outside"), ("min", "65533"), ("max", "65535"), ("inclusive", "true")], ty: "u16", run: run_375 },
    Cfg { name: "u16 unsigned_integer(range(Outside(min = 65532, max = 65535, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 65532, max = 65535, inclusive = false))", opts: &[("kind", "Outside"), ("min", "65532"), ("max", "65535"), ("inclusive", "false")], ty: "u16", run: run_376 },
    Cfg { name: "u16 unsigned_integer(range(Outside(min = 0, max = 65535)))", v: "unsigned_integer", attr: "range(Outside(min = 0, max = 65535))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "65535"), ("inclusive", "true")], ty: "u16", run: run_377 },
    Cfg { name: "u16 unsigned_integer(range(Outside(min = 65535)))", v: "unsigned_integer", attr: "range(Outside(min = 65535))", opts: &[("kind", "Outside"), ("min", "65535"), ("max", ""), ("inclusive", "true")], ty: "u16", run: run_378 },
    Cfg { name: "u16 unsigned_integer(range(Outside(max = 0)))", v: "unsigned_integer", attr: "range(Outside(max = 0))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0"), ("inclusive", "true")], ty: "u16", run: run_379 },
    Cfg { name: "u16 unsigned_integer(range(Outside(min = 65535, max = 65535)))", v: "unsigned_integer", attr: "range(Outside(min = 65535, max = 65535))", opts: &[("kind", "Outside"), ("min", "65535"), ("max", "65535"), ("inclusive", "true")], ty: "u16", run: run_380 },
    Cfg { name: "u16 unsigned_integer(range(Outside(3..=77)))", v: "unsigned_integer", attr: "range(Outside(3..=77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "u16", run: run_381 },
    Cfg { name: "u16 unsigned_integer(range(Outside(3..77)))", v: "unsigned_integer", attr: "range(Outside(3..77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "u16", run: run_382 },
    Cfg { name: "u16 unsigned_integer(range(Outside(..=77)))", v: "unsigned_integer", attr: "range(Outside(..=77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "u16", run: run_383 },
    Cfg { name: "u16 unsigned_integer(range(Outside(..77)))", v: "unsigned_integer", attr: "range(Outside(..77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "u16", run: run_384 },
    Cfg { name: "u16 unsigned_integer(range(Outside(3..)))", v: "unsigned_integer", attr: "range(Outside(3..))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "u16", run: run_385 },
    Cfg { name: "u32 unsigned_integer()", v: "unsigned_integer", attr: "", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "u32", run: run_386 },
    Cfg { name: "u32 unsigned_integer(range(Unlimited))", v: "unsigned_integer", attr: "range(Unlimited)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "u32", run: run_387 },
    Cfg { name: "u32 unsigned_integer(range(Inside()))", v: "unsigned_integer", attr: "range(Inside())", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "u32", run: run_388 },
    Cfg { name: "u32 unsigned_integer(range(Outside()))", v: "unsigned_integer", attr: "range(Outside())", opts: &[("kind", "Outside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "u32", run: run_389 },
    Cfg { name: "u32 unsigned_integer(range(Inside(min = 3)))", v: "unsigned_integer", attr: "range(Inside(min = 3))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "u32", run: run_390 },
    Cfg { name: "u32 unsigned_integer(range(Inside(min = 3, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 3, inclusive = false))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "false")], ty: "u32", run: run_391 },
    Cfg { name: "u32 unsigned_integer(range(Inside(max = 100)))", v: "unsigned_integer", attr: "range(Inside(max = 100))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "u32", run: run_392 },
    Cfg { name: "u32 unsigned_integer(range(Inside(max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "u32", run: run_393 },
    Cfg { name: "u32 unsigned_integer(range(Inside(min = 3, max = 100)))", v: "unsigned_integer", attr: "range(Inside(min = 3, max = 100))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "u32", run: run_394 },
    Cfg { name: "u32 unsigned_integer(range(Inside(min = 3, max = 100, inclusive = true)))", v: "unsigned_integer", attr: "range(Inside(min = 3, max = 100, inclusive = true))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "u32", run: run_395 },
    Cfg { name: "u32 unsigned_integer(range(Inside(min = 3, max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 3, max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "100"), ("inclusive", "false")], ty: "u32", run: run_396 },
    Cfg { name: "u32 unsigned_integer(range(Inside(min = 42, max = 42)))", v: "unsigned_integer", attr: "range(Inside(min = 42, max = 42))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "u32", run: run_397 },
    Cfg { name: "u32 unsigned_integer(range(Inside(min = 42, max = 43, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "u32", run: run_398 },
    Cfg { name: "u32 unsigned_integer(range(Outside(min = 3)))", v: "unsigned_integer", attr: "range(Outside(min = 3))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "u32", run: run_399 },
    Cfg { name: "u32 unsigned_integer(range(Outside(min = 3, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 3, inclusive = false))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "false")], ty: "u32", run: run_400 },
    Cfg { name: "u32 unsigned_integer(range(Outside(max = 100)))", v: "unsigned_integer", attr: "range(Outside(max = 100))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "u32", run: run_401 },
    Cfg { name: "u32 unsigned_integer(range(Outside(max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "u32", run: run_402 },
    Cfg { name: "u32 unsigned_integer(range(Outside(min = 3, max = 100)))", v: "unsigned_integer", attr: "range(Outside(min = 3, max = 100))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "u32", run: run_403 },
    Cfg { name: "u32 unsigned_integer(range(Outside(min = 3, max = 100, inclusive = true)))", v: "unsigned_integer", attr: "range(Outside(min = 3, max = 100, inclusive = true))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "u32", run: run_404 },
    Cfg { name: "u32 unsigned_integer(range(Outside(min = 3, max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 3, max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "100"), ("inclusive", "false")], ty: "u32", run: run_405 },
    Cfg { name: "u32 unsigned_integer(range(Outside(min = 42, max = 42)))", v: "unsigned_integer", attr: "range(Outside(min = 42, max = 42))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "u32", run: run_406 },
    Cfg { name: "u32 unsigned_integer(range(Outside(min = 42, max = 43, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "u32", run: run_407 },
    Cfg { name: "u32 unsigned_integer(range(Inside(min = 0, max = 2)))", v: "unsigned_integer", attr: "range(Inside(min = 0, max = 2))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "2"), ("inclusive", "true")], ty: "u32", run: run_408 },
    Cfg { name: "u32 unsigned_integer(range(Inside(min = 4294967293, max = 4294967295)))", v: "unsigned_integer", attr: "range(Inside(min = 4294967293, max = 4294967295))", opts: &[("kind", "Inside"), ("min", "4294967293"), ("max", "4294967295"), ("inclusive", "true")], ty: "u32", run: run_409 },
    Cfg { name: "u32 unsigned_integer(range(Inside(min = 4294967292, max = 4294967295, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 4294967292, max = 4294967295, inclusive = false))", opts: &[("kind", "Inside"), ("min", "4294967292"), ("max", "4294967295"), ("inclusive", "false")], ty: "u32", run: run_410 },
    Cfg { name: "u32 unsigned_integer(range(Inside(min = 0, max = 4294967295)))", v: "unsigned_integer", attr: "range(Inside(min = 0, max = 4294967295))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "4294967295"), ("inclusive", "true")], ty: "u32", run: run_411 },
    Cfg { name: "u32 unsigned_integer(range(Inside(min = 4294967295)))", v: "unsigned_integer", attr: "range(Inside(min = 4294967295))", opts: &[("kind", "Inside"), ("min", "4294967295"), ("max", ""), ("inclusive", "true")], ty: "u32", run: run_412 },
    Cfg { name: "u32 unsigned_integer(range(Inside(max = 0)))", v: "unsigned_integer", attr: "range(Inside(max = 0))", opts: &[("kind", "Inside"), ("min", ""), ("max", "0"), ("inclusive", "true")], ty: "u32", run: run_413 },
    Cfg { name: "u32 unsigned_integer(range(Inside(min = 4294967295, max = 4294967295)))", v: "unsigned_integer", attr: "range(Inside(min = 4294967295, max = 4294967295))", opts: &[("kind", "Inside"), ("min", "4294967295"), ("max", "4294967295"), ("inclusive", "true")], ty: "u32", run: run_414 },
    Cfg { name: "u32 unsigned_integer(range(Inside(3..=77)))", v: "unsigned_integer", attr: "range(Inside(3..=77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "u32", run: run_415 },
    Cfg { name: "u32 unsigned_integer(range(Inside(3..77)))", v: "unsigned_integer", attr: "range(Inside(3..77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "u32", run: run_416 },
    Cfg { name: "u32 unsigned_integer(range(Inside(..=77)))", v: "unsigned_integer", attr: "range(Inside(..=77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "u32", run: run_417 },
    Cfg { name: "u32 unsigned_integer(range(Inside(..77)))", v: "unsigned_integer", attr: "range(Inside(..77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "u32", run: run_418 },
    Cfg { name: "u32 unsigned_integer(range(Inside(3..)))", v: "unsigned_integer", attr: "range(Inside(3..))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "u32", run: run_419 },
    Cfg { name: "u32 unsigned_integer(range(Outside(min = 0, max = 2)))", v: "unsigned_integer", attr: "range(Outside(min = 0, max = 2))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "2"), ("inclusive", "true")], ty: "u32", run: run_420 },
    Cfg { name: "u32 unsigned_integer(range(Outside(min = 4294967293, max = 4294967295)))", v: "unsigned_integer", attr: "range(Outside(min = 4294967293, max = 4294967295))", opts: &[("kind", "Outside"), ("min", "4294967293"), ("max", "4294967295"), ("inclusive", "true")], ty: "u32", run: run_421 },
    Cfg { name: "u32 unsigned_integer(range(Outside(min = 4294967292, max = 4294967295, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 4294967292, max = 4294967295, inclusive = false))", opts: &[("kind", "Outside"), ("min", "4294967292"), ("max", "4294967295"), ("inclusive", "false")], ty: "u32", run: run_422 },
    Cfg { name: "u32 unsigned_integer(range(Outside(min = 0, max = 4294967295)))", v: "unsigned_integer", attr: "range(Outside(min = 0, max = 4294967295))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "4294967295"), ("inclusive", "true")], ty: "u32", run: run_423 },
    Cfg { name: "u32 unsigned_integer(range(Outside(min = 4294967295)))", v: "unsigned_integer", attr: "range(Outside(min = 4294967295))", opts: &[("kind", "Outside"), ("min", "4294967295"), ("max", ""), ("inclusive", "true")], ty: "u32", run: run_424 },
    Cfg { name: "u32 unsigned_integer(range(Outside(max = 0)))", v: "unsigned_integer", attr: "range(Outside(max = 0))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0"), ("inclusive", "true")], ty: "u32", run: run_425 },
    Cfg { name: "u32 unsigned_integer(range(Outside(min = 4294967295, max = 4294967295)))", v: "unsigned_integer", attr: "range(Outside(min = 4294967295, max = 4294967295))", opts: &[("kind", "Outside"), ("min", "4294967295"), ("max", "4294967295"), ("inclusive", "true")], ty: "u32", run: run_426 },
    Cfg { name: "u32 unsigned_integer(range(Outside(3..=77)))", v: "unsigned_integer", attr: "range(Outside(3..=77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "u32", run: run_427 },
    Cfg { name: "u32 unsigned_integer(range(Outside(3..77)))", v: "unsigned_integer", attr: "range(Outside(3..77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "u32", run: run_428 },
    Cfg { name: "u32 unsigned_integer(range(Outside(..=77)))", v: "unsigned_integer", attr: "range(Outside(..=77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "u32", run: run_429 },
    Cfg { name: "u32 unsigned_integer(range(Outside(..77)))", v: "unsigned_integer", attr: "range(Outside(..77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "u32", run: run_430 },
    Cfg { name: "u32 unsigned_integer(range(Outside(3..)))", v: "unsigned_integer", attr: "range(Outside(3..))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "u32", run: run_431 },
    Cfg { name: "u64 unsigned_integer()", v: "unsigned_integer", attr: "", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "u64", run: run_432 },
    Cfg { name: "u64 unsigned_integer(range(Unlimited))", v: "unsigned_integer", attr: "range(Unlimited)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "u64", run: run_433 },
    Cfg { name: "u64 unsigned_integer(range(Inside()))", v: "unsigned_integer", attr: "range(Inside())", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "u64", run: run_434 },
    Cfg { name: "u64 unsigned_integer(range(Outside()))", v: "unsigned_integer", attr: "range(Outside())", opts: &[("kind", "Outside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "u64", run: run_435 },
    Cfg { name: "u64 unsigned_integer(range(Inside(min = 3)))", v: "unsigned_integer", attr: "range(Inside(min = 3))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "u64", run: run_436 },
    Cfg { name: "u64 unsigned_integer(range(Inside(min = 3, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 3, inclusive = false))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "false")], ty: "u64", run: run_437 },
    Cfg { name: "u64 unsigned_integer(range(Inside(max = 100)))", v: "unsigned_integer", attr: "range(Inside(max = 100))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "u64", run: run_438 },
    Cfg { name: "u64 unsigned_integer(range(Inside(max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "u64", run: run_439 },
    Cfg { name: "u64 unsigned_integer(range(Inside(min = 3, max = 100)))", v: "unsigned_integer", attr: "range(Inside(min = 3, max = 100))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "u64", run: run_440 },
    Cfg { name: "u64 unsigned_integer(range(Inside(min = 3, max = 100, inclusive = true)))", v: "unsigned_integer", attr: "range(Inside(min = 3, max = 100, inclusive = true))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "u64", run: run_441 },
    Cfg { name: "u64 unsigned_integer(range(Inside(min = 3, max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 3, max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "100"), ("inclusive", "false")], ty: "u64", run: run_442 },
    Cfg { name: "u64 unsigned_integer(range(Inside(min = 42, max = 42)))", v: "unsigned_integer", attr: "range(Inside(min = 42, max = 42))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "u64", run: run_443 },
    Cfg { name: "u64 unsigned_integer(range(Inside(min = 42, max = 43, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "u64", run: run_444 },
    Cfg { name: "u64 unsigned_integer(range(Outside(min = 3)))", v: "unsigned_integer", attr: "range(Outside(min = 3))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "u64", run: run_445 },
    Cfg { name: "u64 unsigned_integer(range(Outside(min = 3, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 3, inclusive = false))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "false")], ty: "u64", run: run_446 },
    Cfg { name: "u64 unsigned_integer(range(Outside(max = 100)))", v: "unsigned_integer", attr: "range(Outside(max = 100))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "u64", run: run_447 },
    Cfg { name: "u64 unsigned_integer(range(Outside(max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "u64", run: run_448 },
    Cfg { name: "u64 unsigned_integer(range(Outside(min = 3, max = 100)))", v: "unsigned_integer", attr: "range(Outside(min = 3, max = 100))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "u64", run: run_449 },
    Cfg { name: "u64 unsigned_integer(range(Outside(min = 3, max = 100, inclusive = true)))", v: "unsigned_integer", attr: "range(Outside(min = 3, max = 100, inclusive = true))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "u64", run: run_450 },
    Cfg { name: "u64 unsigned_integer(range(Outside(min = 3, max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 3, max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "100"), ("inclusive", "false")], ty: "u64", run: run_451 },
    Cfg { name: "u64 unsigned_integer(range(Outside(min = 42, max = 42)))", v: "unsigned_integer", attr: "range(Outside(min = 42, max = 42))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "u64", run: run_452 },
    Cfg { name: "u64 unsigned_integer(range(Outside(min = 42, max = 43, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "u64", run: run_453 },
    Cfg { name: "u64 unsigned_integer(range(Inside(min = 0, max = 2)))", v: "unsigned_integer", attr: "range(Inside(min = 0, max = 2))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "2"), ("inclusive", "true")], ty: "u64", run: run_454 },
    Cfg { name: "u64 unsigned_integer(range(Inside(min = 18446744073709551613, max = 18446744073709551615)))", v: "unsigned_integer", attr: "range(Inside(min = 18446744073709551613, max = 18446744073709551615))", opts: &[("kind", "Inside"), ("min", "18446744073709551613"), ("max", "18446744073709551615"), ("inclusive", "true")], ty: "u64", run: run_455 },
    Cfg { name: "u64 unsigned_integer(range(Inside(min = 18446744073709551612, max = 18446744073709551615, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 18446744073709551612, max = 18446744073709551615, inclusive = false))", opts: &[("kind", "Inside"), ("min", "18446744073709551612"), ("max", "18446744073709551615"), ("inclusive", "false")], ty: "u64", run: run_456 },
    Cfg { name: "u64 unsigned_integer(range(Inside(min = 0, max = 18446744073709551615)))", v: "unsigned_integer", attr: "range(Inside(min = 0, max = 18446744073709551615))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "18446744073709551615"), ("inclusive", "true")], ty: "u64", run: run_457 },
    Cfg { name: "u64 unsigned_integer(range(Inside(min = 18446744073709551615)))", v: "unsigned_integer", attr: "range(Inside(min = 18446744073709551615))", opts: &[("kind", "Inside"), ("min", "18446744073709551615"), ("max", ""), ("inclusive", "true")], ty: "u64", run: run_458 },
    Cfg { name: "u64 unsigned_integer(range(Inside(max = 0)))", v: "unsigned_integer", attr: "range(Inside(max = 0))", opts: &[("kind", "Inside"), ("min", ""), ("max", "0"), ("inclusive", "true")], ty: "u64", run: run_459 },
    Cfg { name: "u64 unsigned_integer(range(Inside(min = 18446744073709551615, max = 18446744073709551615)))", v: "unsigned_integer", attr: "range(Inside(min = 18446744073709551615, max = 18446744073709551615))", opts: &[("kind", "Inside"), ("min", "18446744073709551615"), ("max", "18446744073709551615"), ("inclusive", "true")], ty: "u64", run: run_460 },
    Cfg { name: "u64 unsigned_integer(range(Inside(3..=77)))", v: "unsigned_integer", attr: "range(Inside(3..=77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "u64", run: run_461 },
    Cfg { name: "u64 unsigned_integer(range(Inside(3..77)))", v: "unsigned_integer", attr: "range(Inside(3..77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "u64", run: run_462 },
    Cfg { name: "u64 unsigned_integer(range(Inside(..=77)))", v: "unsigned_integer", attr: "range(Inside(..=77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "u64", run: run_463 },
    Cfg { name: "u64 unsigned_integer(range(Inside(..77)))", v: "unsigned_integer", attr: "range(Inside(..77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "u64", run: run_464 },
    Cfg { name: "u64 unsigned_integer(range(Inside(3..)))", v: "unsigned_integer", attr: "range(Inside(3..))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "u64", run: run_465 },
    Cfg { name: "u64 unsigned_integer(range(Outside(min = 0, max = 2)))", v: "unsigned_integer", attr: "range(Outside(min = 0, max = 2))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "2"), ("inclusive", "true")], ty: "u64", run: run_466 },
    Cfg { name: "u64 unsigned_integer(range(Outside(min = 18446744073709551613, max = 18446744073709551615)))", v: "unsigned_integer", attr: "range(Outside(min = 18446744073709551613, max = 18446744073709551615))", opts: &[("kind", "Outside"), ("min", "18446744073709551613"), ("max", "18446744073709551615"), ("inclusive", "true")], ty: "u64", run: run_467 },
    Cfg { name: "u64 unsigned_integer(range(Outside(min = 18446744073709551612, max = 18446744073709551615, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 18446744073709551612, max = 18446744073709551615, inclusive = false))", opts: &[("kind", "Outside"), ("min", "18446744073709551612"), ("max", "18446744073709551615"), ("inclusive", "false")], ty: "u64", run: run_468 },
    Cfg { name: "u64 unsigned_integer(range(Outside(min = 0, max = 18446744073709551615)))", v: "unsigned_integer", attr: "range(Outside(min = 0, max = 18446744073709551615))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "18446744073709551615"), ("inclusive", "true")], ty: "u64", run: run_469 },
    Cfg { name: "u64 unsigned_integer(range(Outside(min = 18446744073709551615)))", v: "unsigned_integer", attr: "range(Outside(min = 18446744073709551615))", opts: &[("kind", "Outside"), ("min", "18446744073709551615"), ("max", ""), ("inclusive", "true")], ty: "u64", run: run_470 },
    Cfg { name: "u64 unsigned_integer(range(Outside(max = 0)))", v: "unsigned_integer", attr: "range(Outside(max = 0))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0"), ("inclusive", "true")], ty: "u64", run: run_471 },
    Cfg { name: "u64 unsigned_integer(range(Outside(min = 18446744073709551615, max = 18446744073709551615)))", v: "unsigned_integer", attr: "range(Outside(min = 18446744073709551615, max = 18446744073709551615))", opts: &[("kind", "Outside"), ("min", "18446744073709551615"), ("max", "18446744073709551615"), ("inclusive", "true")], ty: "u64", run: run_472 },
    Cfg { name: "u64 unsigned_integer(range(Outside(3..=77)))", v: "unsigned_integer", attr: "range(Outside(3..=77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "u64", run: run_473 },
    Cfg { name: "u64 unsigned_integer(range(Outside(3..77)))", v: "unsigned_integer", attr: "range(Outside(3..77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "u64", run: run_474 },
    Cfg { name: "u64 unsigned_integer(range(Outside(..=77)))", v: "unsigned_integer", attr: "range(Outside(..=77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "u64", run: run_475 },
    Cfg { name: "u64 unsigned_integer(range(Outside(..77)))", v: "unsigned_integer", attr: "range(Outside(..77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "u64", run: run_476 },
    Cfg { name: "u64 unsigned_integer(range(Outside(3..)))", v: "unsigned_integer", attr: "range(Outside(3..))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "u64", run: run_477 },
    Cfg { name: "u128 unsigned_integer()", v: "unsigned_integer", attr: "", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "u128", run: run_478 },
    Cfg { name: "u128 unsigned_integer(range(Unlimited))", v: "unsigned_integer", attr: "range(Unlimited)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "u128", run: run_479 },
    Cfg { name: "u128 unsigned_integer(range(Inside()))", v: "unsigned_integer", attr: "range(Inside())", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "u128", run: run_480 },
    Cfg { name: "u128 unsigned_integer(range(Outside()))", v: "unsigned_integer", attr: "range(Outside())", opts: &[("kind", "Outside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "u128", run: run_481 },
    Cfg { name: "u128 unsigned_integer(range(Inside(min = 3)))", v: "unsigned_integer", attr: "range(Inside(min = 3))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "u128", run: run_482 },
    Cfg { name: "u128 unsigned_integer(range(Inside(min = 3, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 3, inclusive = false))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "false")], ty: "u128", run: run_483 },
    Cfg { name: "u128 unsigned_integer(range(Inside(max = 100)))", v: "unsigned_integer", attr: "range(Inside(max = 100))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "u128", run: run_484 },
    Cfg { name: "u128 unsigned_integer(range(Inside(max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "u128", run: run_485 },
    Cfg { name: "u128 unsigned_integer(range(Inside(min = 3, max = 100)))", v: "unsigned_integer", attr: "range(Inside(min = 3, max = 100))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "u128", run: run_486 },
    Cfg { name: "u128 unsigned_integer(range(Inside(min = 3, max = 100, inclusive = true)))", v: "unsigned_integer", attr: "range(Inside(min = 3, max = 100, inclusive = true))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "u128", run: run_487 },
    Cfg { name: "u128 unsigned_integer(range(Inside(min = 3, max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 3, max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "100"), ("inclusive", "false")], ty: "u128", run: run_488 },
    Cfg { name: "u128 unsigned_integer(range(Inside(min = 42, max = 42)))", v: "unsigned_integer", attr: "range(Inside(min = 42, max = 42))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "u128", run: run_489 },
    Cfg { name: "u128 unsigned_integer(range(Inside(min = 42, max = 43, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "u128", run: run_490 },
    Cfg { name: "u128 unsigned_integer(range(Outside(min = 3)))", v: "unsigned_integer", attr: "range(Outside(min = 3))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "u128", run: run_491 },
    Cfg { name: "u128 unsigned_integer(range(Outside(min = 3, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 3, inclusive = false))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "false")], ty: "u128", run: run_492 },
    Cfg { name: "u128 unsigned_integer(range(Outside(max = 100)))", v: "unsigned_integer", attr: "range(Outside(max = 100))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "u128", run: run_493 },
    Cfg { name: "u128 unsigned_integer(range(Outside(max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "u128", run: run_494 },
    Cfg { name: "u128 unsigned_integer(range(Outside(min = 3, max = 100)))", v: "unsigned_integer", attr: "range(Outside(min = 3, max = 100))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "u128", run: run_495 },
    Cfg { name: "u128 unsigned_integer(range(Outside(min = 3, max = 100, inclusive = true)))", v: "unsigned_integer", attr: "range(Outside(min = 3, max = 100, inclusive = true))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "u128", run: run_496 },
    Cfg { name: "u128 unsigned_integer(range(Outside(min = 3, max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 3, max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "100"), ("inclusive", "false")], ty: "u128", run: run_497 },
    Cfg { name: "u128 unsigned_integer(range(Outside(min = 42, max = 42)))", v: "unsigned_integer", attr: "range(Outside(min = 42, max = 42))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "u128", run: run_498 },
    Cfg { name: "u128 unsigned_integer(range(Outside(min = 42, max = 43, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "u128", run: run_499 },
    Cfg { name: "u128 unsigned_integer(range(Inside(min = 0, max = 2)))", v: "unsigned_integer", attr: "range(Inside(min = 0, max = 2))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "2"), ("inclusive", "true")], ty: "u128", run: run_500 },
    Cfg { name: "u128 unsigned_integer(range(Inside(min = 340282366920938463463374607431768211453, max = 340282366920938463463374607431768211455)))", v: "unsigned_integer", attr: "range(Inside(min = 340282366920938463463374607431768211453, max = 340282366920938463463374607431768211455))", opts: &[("kind", "Inside"), ("min", "340282366920938463463374607431768211453"), ("max", "340282366920938463463374607431768211455"), ("inclusive", "true")], ty: "u128", run: run_501 },
    Cfg { name: "u128 unsigned_integer(range(Inside(min = 340282366920938463463374607431768211452, max = 340282366920938463463374607431768211455, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 340282366920938463463374607431768211452, max = 340282366920938463463374607431768211455, inclusive = false))", opts: &[("kind", "Inside"), ("min", "340282366920938463463374607431768211452"), ("max", "340282366920938463463374607431768211455"), ("inclusive", "false")], ty: "u128", run: run_502 },
    Cfg { name: "u128 unsigned_integer(range(Inside(min = 0, max = 340282366920938463463374607431768211455)))", v: "unsigned_integer", attr: "range(Inside(min = 0, max = 340282366920938463463374607431768211455))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "340282366920938463463374607431768211455"), ("inclusive", "true")], ty: "u128", run: run_503 },
    Cfg { name: "u128 unsigned_integer(range(Inside(min = 340282366920938463463374607431768211455)))", v: "unsigned_integer", attr: "range(Inside(min = 340282366920938463463374607431768211455))", opts: &[("kind", "Inside"), ("min", "340282366920938463463374607431768211455"), ("max", ""), ("inclusive", "true")], ty: "u128", run: run_504 },
    Cfg { name: "u128 unsigned_integer(range(Inside(max = 0)))", v: "unsigned_integer", attr: "range(Inside(max = 0))", opts: &[("kind", "Inside"), ("min", ""), ("max", "0"), ("inclusive", "true")], ty: "u128", run: run_505 },
    Cfg { name: "u128 unsigned_integer(range(Inside(min = 340282366920938463463374607431768211455, max = 340282366920938463463374607431768211455)))", v: "unsigned_integer", attr: "range(Inside(min = 340282366920938463463374607431768211455, max = 340282366920938463463374607431768211455))", opts: &[("kind", "Inside"), ("min", "340282366920938463463374607431768211455"), ("max", "340282366920938463463374607431768211455"), ("inclusive", "true")], ty: "u128", run: run_506 },
    Cfg { name: "u128 unsigned_integer(range(Inside(3..=77)))", v: "unsigned_integer", attr: "range(Inside(3..=77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "u128", run: run_507 },
    Cfg { name: "u128 unsigned_integer(range(Inside(3..77)))", v: "unsigned_integer", attr: "range(Inside(3..77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "u128", run: run_508 },
    Cfg { name: "u128 unsigned_integer(range(Inside(..=77)))", v: "unsigned_integer", attr: "range(Inside(..=77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "u128", run: run_509 },
    Cfg { name: "u128 unsigned_integer(range(Inside(..77)))", v: "unsigned_integer", attr: "range(Inside(..77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "u128", run: run_510 },
    Cfg { name: "u128 unsigned_integer(range(Inside(3..)))", v: "unsigned_integer", attr: "range(Inside(3..))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "u128", run: run_511 },
    Cfg { name: "u128 unsigned_integer(range(Outside(min = 0, max = 2)))", v: "unsigned_integer", attr: "range(Outside(min = 0, max = 2))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "2"), ("inclusive", "true")], ty: "u128", run: run_512 },
    Cfg { name: "u128 unsigned_integer(range(Outside(min = 340282366920938463463374607431768211453, max = 340282366920938463463374607431768211455)))", v: "unsigned_integer", attr: "range(Outside(min = 340282366920938463463374607431768211453, max = 340282366920938463463374607431768211455))", opts: &[("kind", "Outside"), ("min", "340282366920938463463374607431768211453"), ("max", "340282366920938463463374607431768211455"), ("inclusive", "true")], ty: "u128", run: run_513 },
    Cfg { name: "u128 unsigned_integer(range(Outside(min = 340282366920938463463374607431768211452, max = 340282366920938463463374607431768211455, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 340282366920938463463374607431768211452, max = 340282366920938463463374607431768211455, inclusive = false))", opts: &[("kind", "Outside"), ("min", "340282366920938463463374607431768211452"), ("max", "340282366920938463463374607431768211455"), ("inclusive", "false")], ty: "u128", run: run_514 },
    Cfg { name: "u128 unsigned_integer(range(Outside(min = 0, max = 340282366920938463463374607431768211455)))", v: "unsigned_integer", attr: "range(Outside(min = 0, max = 340282366920938463463374607431768211455))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "340282366920938463463374607431768211455"), ("inclusive", "true")], ty: "u128", run: run_515 },
    Cfg { name: "u128 unsigned_integer(range(Outside(min = 340282366920938463463374607431768211455)))", v: "unsigned_integer", attr: "range(Outside(min = 340282366920938463463374607431768211455))", opts: &[("kind", "Outside"), ("min", "340282366920938463463374607431768211455"), ("max", ""), ("inclusive", "true")], ty: "u128", run: run_516 },
    Cfg { name: "u128 unsigned_integer(range(Outside(max = 0)))", v: "unsigned_integer", attr: "range(Outside(max = 0))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0"), ("inclusive", "true")], ty: "u128", run: run_517 },
    Cfg { name: "u128 unsigned_integer(range(Outside(min = 340282366920938463463374607431768211455, max = 340282366920938463463374607431768211455)))", v: "unsigned_integer", attr: "range(Outside(min = 340282366920938463463374607431768211455, max = 340282366920938463463374607431768211455))", opts: &[("kind", "Outside"), ("min", "340282366920938463463374607431768211455"), ("max", "340282366920938463463374607431768211455"), ("inclusive", "true")], ty: "u128", run: run_518 },
    Cfg { name: "u128 unsigned_integer(range(Outside(3..=77)))", v: "unsigned_integer", attr: "range(Outside(3..=77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "u128", run: run_519 },
    Cfg { name: "u128 unsigned_integer(range(Outside(3..77)))", v: "unsigned_integer", attr: "range(Outside(3..77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "u128", run: run_520 },
    Cfg { name: "u128 unsigned_integer(range(Outside(..=77)))", v: "unsigned_integer", attr: "range(Outside(..=77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "u128", run: run_521 },
    Cfg { name: "u128 unsigned_integer(range(Outside(..77)))", v: "unsigned_integer", attr: "range(Outside(..77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "u128", run: run_522 },
    Cfg { name: "u128 unsigned_integer(range(Outside(3..)))", v: "unsigned_integer", attr: "range(Outside(3..))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "u128", run: run_523 },
    Cfg { name: "usize unsigned_integer()", v: "unsigned_integer", attr: "", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "usize", run: run_524 },
    Cfg { name: "usize unsigned_integer(range(Unlimited))", v: "unsigned_integer", attr: "range(Unlimited)", opts: &[("kind", "Unlimited"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "usize", run: run_525 },
    Cfg { name: "usize unsigned_integer(range(Inside()))", v: "unsigned_integer", attr: "range(Inside())", opts: &[("kind", "Inside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "usize", run: run_526 },
    Cfg { name: "usize unsigned_integer(range(Outside()))", v: "unsigned_integer", attr: "range(Outside())", opts: &[("kind", "Outside"), ("min", ""), ("max", ""), ("inclusive", "true")], ty: "usize", run: run_527 },
    Cfg { name: "usize unsigned_integer(range(Inside(min = 3)))", v: "unsigned_integer", attr: "range(Inside(min = 3))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "usize", run: run_528 },
    Cfg { name: "usize unsigned_integer(range(Inside(min = 3, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 3, inclusive = false))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "false")], ty: "usize", run: run_529 },
    Cfg { name: "usize unsigned_integer(range(Inside(max = 100)))", v: "unsigned_integer", attr: "range(Inside(max = 100))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "usize", run: run_530 },
    Cfg { name: "usize unsigned_integer(range(Inside(max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "usize", run: run_531 },
    Cfg { name: "usize unsigned_integer(range(Inside(min = 3, max = 100)))", v: "unsigned_integer", attr: "range(Inside(min = 3, max = 100))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "usize", run: run_532 },
    Cfg { name: "usize unsigned_integer(range(Inside(min = 3, max = 100, inclusive = true)))", v: "unsigned_integer", attr: "range(Inside(min = 3, max = 100, inclusive = true))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "usize", run: run_533 },
    Cfg { name: "usize unsigned_integer(range(Inside(min = 3, max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 3, max = 100, inclusive = false))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "100"), ("inclusive", "false")], ty: "usize", run: run_534 },
    Cfg { name: "usize unsigned_integer(range(Inside(min = 42, max = 42)))", v: "unsigned_integer", attr: "range(Inside(min = 42, max = 42))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "usize", run: run_535 },
    Cfg { name: "usize unsigned_integer(range(Inside(min = 42, max = 43, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Inside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "usize", run: run_536 },
    Cfg { name: "usize unsigned_integer(range(Outside(min = 3)))", v: "unsigned_integer", attr: "range(Outside(min = 3))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "usize", run: run_537 },
    Cfg { name: "usize unsigned_integer(range(Outside(min = 3, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 3, inclusive = false))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "false")], ty: "usize", run: run_538 },
    Cfg { name: "usize unsigned_integer(range(Outside(max = 100)))", v: "unsigned_integer", attr: "range(Outside(max = 100))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "true")], ty: "usize", run: run_539 },
    Cfg { name: "usize unsigned_integer(range(Outside(max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", ""), ("max", "100"), ("inclusive", "false")], ty: "usize", run: run_540 },
    Cfg { name: "usize unsigned_integer(range(Outside(min = 3, max = 100)))", v: "unsigned_integer", attr: "range(Outside(min = 3, max = 100))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "usize", run: run_541 },
    Cfg { name: "usize unsigned_integer(range(Outside(min = 3, max = 100, inclusive = true)))", v: "unsigned_integer", attr: "range(Outside(min = 3, max = 100, inclusive = true))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "100"), ("inclusive", "true")], ty: "usize", run: run_542 },
    Cfg { name: "usize unsigned_integer(range(Outside(min = 3, max = 100, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 3, max = 100, inclusive = false))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "100"), ("inclusive", "false")], ty: "usize", run: run_543 },
    Cfg { name: "usize unsigned_integer(range(Outside(min = 42, max = 42)))", v: "unsigned_integer", attr: "range(Outside(min = 42, max = 42))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "42"), ("inclusive", "true")], ty: "usize", run: run_544 },
    Cfg { name: "usize unsigned_integer(range(Outside(min = 42, max = 43, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 42, max = 43, inclusive = false))", opts: &[("kind", "Outside"), ("min", "42"), ("max", "43"), ("inclusive", "false")], ty: "usize", run: run_545 },
    Cfg { name: "usize unsigned_integer(range(Inside(min = 0, max = 2)))", v: "unsigned_integer", attr: "range(Inside(min = 0, max = 2))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "2"), ("inclusive", "true")], ty: "usize", run: run_546 },
    Cfg { name: "usize unsigned_integer(range(Inside(min = 18446744073709551613, max = 18446744073709551615)))", v: "unsigned_integer", attr: "range(Inside(min = 18446744073709551613, max = 18446744073709551615))", opts: &[("kind", "Inside"), ("min", "18446744073709551613"), ("max", "18446744073709551615"), ("inclusive", "true")], ty: "usize", run: run_547 },
    Cfg { name: "usize unsigned_integer(range(Inside(min = 18446744073709551612, max = 18446744073709551615, inclusive = false)))", v: "unsigned_integer", attr: "range(Inside(min = 18446744073709551612, max = 18446744073709551615, inclusive = false))", opts: &[("kind", "Inside"), ("min", "18446744073709551612"), ("max", "18446744073709551615"), ("inclusive", "false")], ty: "usize", run: run_548 },
    Cfg { name: "usize unsigned_integer(range(Inside(min = 0, max = 18446744073709551615)))", v: "unsigned_integer", attr: "range(Inside(min = 0, max = 18446744073709551615))", opts: &[("kind", "Inside"), ("min", "0"), ("max", "18446744073709551615"), ("inclusive", "true")], ty: "usize", run: run_549 },
    Cfg { name: "usize unsigned_integer(range(Inside(min = 18446744073709551615)))", v: "unsigned_integer", attr: "range(Inside(min = 18446744073709551615))", opts: &[("kind", "Inside"), ("min", "18446744073709551615"), ("max", ""), ("inclusive", "true")], ty: "usize", run: run_550 },
    Cfg { name: "usize unsigned_integer(range(Inside(max = 0)))", v: "unsigned_integer", attr: "range(Inside(max = 0))", opts: &[("kind", "Inside"), ("min", ""), ("max", "0"), ("inclusive", "true")], ty: "usize", run: run_551 },
    Cfg { name: "usize unsigned_integer(range(Inside(min = 18446744073709551615, max = 18446744073709551615)))", v: "unsigned_integer", attr: "range(Inside(min = 18446744073709551615, max = 18446744073709551615))", opts: &[("kind", "Inside"), ("min", "18446744073709551615"), ("max", "18446744073709551615"), ("inclusive", "true")], ty: "usize", run: run_552 },
    Cfg { name: "usize unsigned_integer(range(Inside(3..=77)))", v: "unsigned_integer", attr: "range(Inside(3..=77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "usize", run: run_553 },
    Cfg { name: "usize unsigned_integer(range(Inside(3..77)))", v: "unsigned_integer", attr: "range(Inside(3..77))", opts: &[("kind", "Inside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "usize", run: run_554 },
    Cfg { name: "usize unsigned_integer(range(Inside(..=77)))", v: "unsigned_integer", attr: "range(Inside(..=77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "usize", run: run_555 },
    Cfg { name: "usize unsigned_integer(range(Inside(..77)))", v: "unsigned_integer", attr: "range(Inside(..77))", opts: &[("kind", "Inside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "usize", run: run_556 },
    Cfg { name: "usize unsigned_integer(range(Inside(3..)))", v: "unsigned_integer", attr: "range(Inside(3..))", opts: &[("kind", "Inside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "usize", run: run_557 },
    Cfg { name: "usize unsigned_integer(range(Outside(min = 0, max = 2)))", v: "unsigned_integer", attr: "range(Outside(min = 0, max = 2))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "2"), ("inclusive", "true")], ty: "usize", run: run_558 },
    Cfg { name: "usize unsigned_integer(range(Outside(min = 18446744073709551613, max = 18446744073709551615)))", v: "unsigned_integer", attr: "range(Outside(min = 18446744073709551613, max = 18446744073709551615))", opts: &[("kind", "Outside"), ("min", "18446744073709551613"), ("max", "18446744073709551615"), ("inclusive", "true")], ty: "usize", run: run_559 },
    Cfg { name: "usize unsigned_integer(range(Outside(min = 18446744073709551612, max = 18446744073709551615, inclusive = false)))", v: "unsigned_integer", attr: "range(Outside(min = 18446744073709551612, max = 18446744073709551615, inclusive = false))", opts: &[("kind", "Outside"), ("min", "18446744073709551612"), ("max", "18446744073709551615"), ("inclusive", "false")], ty: "usize", run: run_560 },
    Cfg { name: "usize unsigned_integer(range(Outside(min = 0, max = 18446744073709551615)))", v: "unsigned_integer", attr: "range(Outside(min = 0, max = 18446744073709551615))", opts: &[("kind", "Outside"), ("min", "0"), ("max", "18446744073709551615"), ("inclusive", "true")], ty: "usize", run: run_561 },
    Cfg { name: "usize unsigned_integer(range(Outside(min = 18446744073709551615)))", v: "unsigned_integer", attr: "range(Outside(min = 18446744073709551615))", opts: &[("kind", "Outside"), ("min", "18446744073709551615"), ("max", ""), ("inclusive", "true")], ty: "usize", run: run_562 },
    Cfg { name: "usize unsigned_integer(range(Outside(max = 0)))", v: "unsigned_integer", attr: "range(Outside(max = 0))", opts: &[("kind", "Outside"), ("min", ""), ("max", "0"), ("inclusive", "true")], ty: "usize", run: run_563 },
    Cfg { name: "usize unsigned_integer(range(Outside(min = 18446744073709551615, max = 18446744073709551615)))", v: "unsigned_integer", attr: "range(Outside(min = 18446744073709551615, max = 18446744073709551615))", opts: &[("kind", "Outside"), ("min", "18446744073709551615"), ("max", "18446744073709551615"), ("inclusive", "true")], ty: "usize", run: run_564 },
    Cfg { name: "usize unsigned_integer(range(Outside(3..=77)))", v: "unsigned_integer", attr: "range(Outside(3..=77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "true")], ty: "usize", run: run_565 },
    Cfg { name: "usize unsigned_integer(range(Outside(3..77)))", v: "unsigned_integer", attr: "range(Outside(3..77))", opts: &[("kind", "Outside"), ("min", "3"), ("max", "77"), ("inclusive", "false")], ty: "usize", run: run_566 },
    Cfg { name: "usize unsigned_integer(range(Outside(..=77)))", v: "unsigned_integer", attr: "range(Outside(..=77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "true")], ty: "usize", run: run_567 },
    Cfg { name: "usize unsigned_integer(range(Outside(..77)))", v: "unsigned_integer", attr: "range(Outside(..77))", opts: &[("kind", "Outside"), ("min", ""), ("max", "77"), ("inclusive", "false")], ty: "usize", run: run_568 },
    Cfg { name: "usize unsigned_integer(range(Outside(3..)))", v: "unsigned_integer", attr: "range(Outside(3..))", opts: &[("kind", "Outside"), ("min", "3"), ("max", ""), ("inclusive", "true")], ty: "usize", run: run_569 },
];
